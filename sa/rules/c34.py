"""Counters, by abstract interpretation with a ghost count of the clause database.

add_clause_verbatim and reduce are analysed from arbitrary states while additions to and deletions
from the storage count in ghost variables; on every path of a function that changes the database the
reported counters must change by exactly the ghost counts (redundant or irredundant according to the
header of the added clause; only redundant clauses are deleted, C10).  Queries establish that the
counters and the database change nowhere else, that a stored clause never changes its redundancy and
that the number of variables only grows.  Every write of the number of fixed variables stores at most
the length of the trail, and every arithmetic check of the progress report holds under that bound."""
from .common import *
from .. import prims
from ..state import State
from . import scan, c09, c11
from .c11 import ADD

RULE = "counter changes against additions to and deletions from the clause database"
ASSUMES = ["the trail holds distinct variables below the number of variables (C04, C23)",
           "only redundant clauses are deleted (C10)"]

BOTH_PROFILES = True

FS = "starlit::prop::FormulaStats"
PS = "starlit::prop::PropStats"
REDUCE = "starlit::search::reduce::reduce"
REPORT = "starlit::report::report"
ADDC = "starlit::solver::Solver::<'a>::add_clause"
BIN = "starlit::prop::binary::BinaryClauses::add_clause"
NEWL = "starlit::prop::long::LongHeader::new_learned_clause"

FTY.update({(CTX, "stats"): "Stats"})


def ghost(name):
    return ("G", "count", name)


def bump(eng, st, c, name, k):
    b = ghost(name)
    eng.wr(st, b, (), t.add(eng.getbase(st, b), I(k)), c.fr, c.span)


def counting(pr):
    add0, del0 = pr[prims.AR + "add_clause"], pr[prims.AR + "delete_clause"]

    def binary(eng, st, c):
        bump(eng, st, c, "binary", 1)
        b, p = eng.deref(st, c.args[0])
        eng.wr(st, b, p, eng.fresh(c, "bin"), c.fr, c.span)
        return [(st, t.UNIT)]

    def long(eng, st, c):
        h = c.args[1]
        out = []
        for s, r in add0(eng, st, c):
            if r.op == "en" and r.args[0] == 0:
                red = prims.hget(eng, s, "redundant", h)
                for s2, v in eng.fork(s, red):
                    bump(eng, s2, c, "redundant" if v else "irredundant", 1)
                    out.append((s2, r))
            else:
                out.append((s, r))
        return out

    def dele(eng, st, c):
        bump(eng, st, c, "redundant", -1)
        return del0(eng, st, c)
    pr[BIN] = binary
    pr[prims.AR + "add_clause"] = long
    pr[prims.AR + "delete_clause"] = dele
    return pr


def run(cx):
    database(cx)
    elsewhere(cx)
    variables(cx)
    fixed(cx)
    report(cx)


def database(cx):
    for path in (ADD, REDUCE):
        key = cx.key(path)
        w = cx.where(path)
        ic = cx.param(key, "context::Ctx")
        st = State()
        f0 = View(cx, mk("pt", mk("sym", "a%d" % ic)), CTX).stats.formula
        for g in ("binary", "redundant", "irredundant"):
            st.mem[ghost(g)] = getattr(f0, g)
        pr = counting(prims.allp())
        e, a, outs = cx.run(key, pr=pr, st=st)
        cx.ob(bool(outs), "c34:returns:" + path, "%s never returns" % path, w)
        changed = False
        for s, _ in outs:
            f = post(e, cx, s, a[ic], CTX).stats.formula
            for g in ("binary", "redundant", "irredundant"):
                k = e.getbase(s, ghost(g))
                changed = changed or k is not getattr(f0, g)
                ok = s.decide(t.eq(getattr(f, g), k)) is True
                cx.ob(ok, "c34:%s:%s" % (g, path), "%s changes the number of %s clauses without "
                      "adding or deleting one, or the other way round" % (path, g), w)
            cx.ob(eqv(s, f.vars, f0.vars), "c34:vars:" + path,
                  "%s changes the number of variables" % path, w)
        cx.ob(changed, "c34:changes:" + path, "%s changes nothing" % path, w)


def writers(cx, adt, name):
    i, _ = cx.lay.idx(adt, name, None)
    out = {}
    for k, b in scan.bodies(cx.lib):
        if "as std::default::Default" in b.path:
            continue
        for pl, use, sp in scan.places(b):
            fs = scan.fields_of(cx.lib, b, pl)
            if fs and fs[-1] == (adt, i, True) and use in ("write", "refmut"):
                out[scan.base(b.path)] = (k, sp)
    return out


def elsewhere(cx):
    cm = scan.callmap(cx.lib)
    roots = {ADD, REDUCE}
    for f in ("binary", "irredundant", "redundant"):
        ws = writers(cx, FS, f)
        cx.ob(bool(ws), "c34:writers:" + f, "nothing counts %s clauses" % f)
        for p in sorted(ws):
            bad = scan.only_from(cm, p, roots)
            cx.ob(not bad, "c34:writer:%s:%s" % (f, p), "the number of %s clauses is changed in %s, "
                  "called by %s" % (f, p, ", ".join(sorted(bad))), p)
    for p in (BIN, prims.AR + "add_clause", prims.AR + "delete_clause"):
        bad = scan.only_from(cm, p, roots)
        cx.ob(not bad, "c34:database:" + p, "the clause database is changed by %s, which does not "
              "count it" % ", ".join(sorted(bad)), p)
    # redundancy of stored clauses
    for k, b in scan.bodies(cx.lib):
        stored = False
        for rec, tm, sp, bl in scan.calls(b):
            q = rec and scan.callee(rec)
            if q in (prims.AR + "header_mut", prims.AR + "header_and_lits_mut"):
                stored = True
        for rec, tm, sp, bl in scan.calls(b):
            if rec and scan.callee(rec) == prims.LH + "set_redundant":
                ok = not stored and "LongHeader" in "".join(x[0] for x in b.locals
                                                            if not x[0].startswith("&"))
                cx.ob(ok, "c34:redundancy:" + b.path, "%s changes the redundancy of a stored clause"
                      % b.path, b.path)


def variables(cx):
    ws = writers(cx, FS, "vars")
    cx.ob(bool(ws), "c34:vars", "nothing counts variables")
    cm = scan.callmap(cx.lib)
    for p in sorted(ws):
        bad = scan.only_from(cm, p, {ADDC})
        cx.ob(not bad, "c34:vars:" + p, "the number of variables is changed by %s"
              % ", ".join(sorted(bad)), p)
    key = cx.key(ADDC)
    pr = prims.allp()
    pr[BACKTRACK] = c09.backtrack_contract(cx)
    isv = cx.param(key, SOLVER)
    pr[ADD] = lambda eng, st, c: [(st, eng.fresh(c))]
    e, a, outs = cx.run(key, pr=pr)
    v0 = View(cx, mk("pt", a[isv]), SOLVER).ctx.stats.formula.vars
    for s, _ in outs:
        v = post(e, cx, s, a[isv], SOLVER).ctx.stats.formula.vars
        cx.ob(s.decide(t.le(v0, v)) is True, "c34:vars:grow", "adding a clause can lower the number "
              "of variables", cx.where(ADDC))
    cx.ob(bool(outs), "c34:vars:returns", "Solver::add_clause never returns", cx.where(ADDC))


class FixedRule(Rule):
    def __init__(self, cx, key, path):
        self.cx, self.key, self.path, self.n = cx, key, path, 0

    def on_write(self, eng, st, base, path, new, fr, span):
        cx = self.cx
        ps = cx.params(self.key)
        a = [mk("sym", "a%d" % i) for i in range(len(ps))]
        ctxs = [i for i, p in enumerate(ps) if "context::Ctx" in p]
        if not ctxs or base != P(a[ctxs[0]]):
            return
        if path != fpath(cx, CTX, "stats", "prop", "fixed_vars"):
            return
        self.n += 1
        tr = trail(eng, cx, st, ps, a)
        if tr is None:
            ok = False
        else:
            D, S = tr.decisions, tr.steps
            for s, more in split(st, t.lt(ONE, t.length(D))):
                if more:
                    # positions of decisions lie on the trail (C07)
                    s.assume(t.le(t.sel(D, ONE, s.decide), t.length(S)))
                ok = s.decide(t.le(new, t.length(S))) is True
                self.cx.ob(ok, "c34:fixed:" + fr.body.path, "more variables are counted as fixed "
                           "than are assigned", at(fr, span))
            return
        self.cx.ob(ok, "c34:fixed:" + fr.body.path, "variables are counted as fixed without access "
                   "to the trail", at(fr, span))


def trail(eng, cx, st, ps, a):
    for i, p in enumerate(ps):
        if TRAIL in p:
            return View(cx, eng.getbase(st, P(a[i])), TRAIL)
        if PROP in p:
            return View(cx, eng.getbase(st, P(a[i])), PROP).trail
        if SEARCH in p:
            return View(cx, eng.getbase(st, P(a[i])), SEARCH).prop.trail
        if STATE in p:
            return View(cx, eng.getbase(st, P(a[i])), STATE).search.prop.trail
    return None


def fixed(cx):
    ws = writers(cx, PS, "fixed_vars")
    for p, (k, sp) in sorted(ws.items()):
        b = cx.lib.body(k)
        pr = prims.allp()
        if p != PROPAGATE:
            pr[PROPAGATE] = propagate_contract(cx)
        pr["starlit::prop::unit_prop::propagate_literal"] = hav_prop
        pr[ANALYZE] = hav_call
        pr[BACKTRACK] = hav_call
        r = FixedRule(cx, k, p)
        cx.run(k, pr=pr, rule=r)
        cx.ob(r.n > 0, "c34:fixed:seen:" + p, "the write of the number of fixed variables in %s is "
              "not reachable with a known context" % p, p)


def hav_prop(eng, st, c):
    out = hav_call(eng, st, c)
    return out


class Asserts(Rule):
    def __init__(self, cx):
        self.cx, self.n = cx, 0

    def on_assert(self, eng, st, fr, cond, tm, sp):
        self.n += 1
        self.cx.ob(st.decide(cond) is True, "c34:report:%s" % fr.body.path,
                   "producing a progress report can fail in an arithmetic check", at(fr, sp))


    def on_overflow(self, eng, st, op, r, ti):
        if ti[0] != "int":
            return
        self.n += 1
        bits = 8 * ti[2]
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if ti[1] else (0, (1 << bits) - 1)
        ok = st.decide(t.le(I(lo), r)) is True and st.decide(t.le(r, I(hi))) is True
        self.cx.ob(ok, "c34:report:overflow", "producing a progress report can overflow in %s"
                   % op, REPORT)


def report(cx):
    from ..models import call_value
    key = cx.key(REPORT)
    ic = cx.param(key, "context::Ctx")
    st = State()
    s0 = View(cx, mk("pt", mk("sym", "a%d" % ic)), CTX).stats
    st.assume(t.le(s0.prop.fixed_vars, s0.formula.vars))
    st.assume(t.le(ZERO, s0.prop.fixed_vars))
    # percentages of the number of variables are formed; it is at most 2^31
    st.assume(t.le(s0.formula.vars, I(1 << 31)))
    pr = dict(prims.allp())
    del pr[REPORT]

    def log(eng, st, c):
        out = [(st.copy(), t.UNIT)]
        f, fty = c.args[-1], c.argtys[-1]
        msg = eng.fresh(c, "msg")
        for s, _ in call_value(eng, st, c, f, fty, [msg], [None]):
            out.append((s, t.UNIT))
        return out
    pr["starlit::log::Logger::log"] = log
    r = Asserts(cx)
    e, a, outs = cx.run(key, pr=pr, st=st, rule=r)
    cx.ob(bool(outs), "c34:report:returns", "the progress report never returns", REPORT)
    cx.ob(r.n > 0, "c34:report:reached", "the message of the progress report is not analysed",
          REPORT)
