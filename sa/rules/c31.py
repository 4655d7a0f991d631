"""Post-condition of add_clause_verbatim for every clause length, by abstract interpretation of its
MIR from an arbitrary solver state.

For each abstract outcome the new solver state is compared with the required one: the empty clause
sets `unsat`; a unit clause is either assigned with one new trail entry, or already true and nothing
changes, or false and `unsat` is set; a binary clause is appended to the lists of both literals with
the respective other literal; a longer clause is stored with the given header and the literals in
order and, while watch lists are enabled, one watch is appended for each of its first two literals.
Nothing else of the clause database changes.  Solver::add_clause must pass its literals on unchanged
as an input clause, and re-enabling the watch lists must watch every stored clause again."""
from .common import *
from .. import prims

RULE = "abstract post-state of add_clause_verbatim equals the required one on every path"
ASSUMES = ["contracts of PartialAssignment, ClauseArena (checked by C19, C15, C16, C37)"]


def run(cx):
    key = cx.key("starlit::prop::add_clause_verbatim")
    ic = cx.param(key, "context::Ctx")
    ip = cx.param(key, PROP)
    ih = cx.param(key, "LongHeader")
    il = cx.param(key, "[starlit::lit::Lit]")
    e, a, outs = cx.run(key)
    lits = t.mk("pt", a[il])
    cx.ob(bool(outs), "c31:returns", "add_clause_verbatim never returns", cx.where(key))
    seen = set()
    for s0, ret in outs:
        for s, n in split_len(s0, lits, 2):
            seen.add(n)
            pr = pre(e, cx, a[ip], PROP)
            po = post(e, cx, s, a[ip], PROP)
            case(cx, e, s, n, lits, a[ih], pr, po)
    for n in (0, 1, 2, None):
        cx.ob(n in seen, "c31:case:%s" % n, "no outcome for clauses of length %s" % (
            "> 2" if n is None else n), cx.where(key))
    solver(cx)
    rebuild(cx)


def case(cx, e, s, n, lits, hdr, pr, po):
    w = "starlit::prop::add_clause_verbatim"

    def ob(ok, k, msg):
        cx.ob(ok, "c31:%s:%s" % ("long" if n is None else n, k),
              "clause of length %s: %s" % ("> 2" if n is None else n, msg), w)

    def unchanged(*names):
        for f in names:
            x, y = getattr(pr, f), getattr(po, f)
            x = x.t if isinstance(x, View) else x
            y = y.t if isinstance(y, View) else y
            ob(eqv(s, x, y), "frame:" + f, "`%s` changes" % f)

    lit = lambda k: t.sel(lits, I(k), s.decide)
    if n == 0:
        ob(s.decide(po.unsat) is True, "unsat", "the formula is not marked unsatisfiable")
        unchanged("values", "binary", "long", "watches", "trail")
        return
    if n == 1:
        a = lit(0)
        unchanged("binary", "long", "watches")
        if s.decide(po.unsat) is True and s.decide(pr.unsat) is not True:
            ob(s.decide(mk("tv", pr.values, neg(a))) is True, "unsat",
               "the formula is marked unsatisfiable although the literal is not false")
            unchanged("values", "trail")
            return
        for s2, isf in split(s, mk("tv", pr.values, neg(a))):
            if isf:
                cx.ob(s2.decide(po.unsat) is True, "c31:1:false",
                      "a unit clause whose literal is false does not make the formula "
                      "unsatisfiable", w)
                continue
            for s3, ist in split(s2, mk("tv", pr.values, a)):
                if ist:
                    cx.ob(eqv(s3, pr.values, po.values)
                          and eqv(s3, pr.trail.steps, po.trail.steps), "c31:1:true",
                          "a unit clause that already holds changes the assignment", w)
                    continue
                cx.ob(eqv(s3, po.values, mk("asg", pr.values, a)), "c31:1:assign",
                      "the literal of a new unit clause is not assigned", w)
                st_ = po.trail.steps
                cx.ob(st_.op == "push" and eqv(s3, st_.args[0], pr.trail.steps)
                      and eqv(s3, View(cx, st_.args[1], STEP).assigned_lit, a), "c31:1:trail",
                      "the literal of a new unit clause gets no trail entry", w)
        return
    if n == 2:
        a, b = lit(0), lit(1)
        unchanged("unsat", "values", "long", "watches", "trail")
        want = []
        for x, y in ((a, b), (b, a)):
            A = t.store(pr.binary, x, t.push(t.sel(pr.binary, x, s.decide), y))
            want.append(t.store(A, y, t.push(t.sel(A, y, s.decide), x)))
        ob(any(eqv(s, po.binary, w_) for w_ in want), "lists",
           "the clause is not appended to the lists of both literals with the respective other "
           "literal")
        return
    unchanged("unsat", "values", "binary", "trail")
    L = po.long
    ok = L.op == "store" and eqv(s, L.args[0], pr.long) and L.args[1].op in ("sym", "r") or \
        (L.op == "store" and eqv(s, L.args[0], pr.long))
    ob(ok, "stored", "the clause is not stored as one new long clause")
    if not ok:
        return
    c, v = L.args[1], L.args[2]
    ob(eqv(s, t.fld(v, 0, 2), hdr), "header", "the clause is not stored with the given header")
    ob(eqv(s, t.fld(v, 1, 2), lits), "literals",
       "the clause is not stored with all literals in the given order")
    en = s.decide(pr.watches.enabled)
    ob(eqv(s, pr.watches.enabled, po.watches.enabled), "enabled", "watch lists are switched")
    W0, W = pr.watches.by_lit, po.watches.by_lit
    if eqv(s, W0, W):
        ob(en is False, "watched", "the clause is not watched although watch lists are enabled")
        return
    a, b = lit(0), lit(1)
    okw = False
    # two appended watches, in either order, each with a blocking literal of the clause
    if W.op == "store" and W.args[0].op == "store" and eqv(s, W.args[0].args[0], W0):
        (i1, l1), (i2, l2) = W.args[0].args[1:], W.args[1:]
        for x, y, kx, ky in ((a, b, 0, 1), (b, a, 1, 0)):
            if not (eqv(s, i1, x) and eqv(s, i2, y)):
                continue
            if not (l1.op == "push" and eqv(s, l1.args[0], t.sel(W0, x, s.decide))):
                continue
            if not (l2.op == "push" and eqv(s, l2.args[0], t.sel(W.args[0], y, s.decide))):
                continue
            okw = all(watch_ok(cx, s, l.args[1], c, lits, k)
                      for l, k in ((l1, kx), (l2, ky)))
            if okw:
                break
    ob(okw, "watches", "the clause is not watched exactly by its first two literals, with a "
       "blocking literal from its other literals")


def watch_ok(cx, s, w, c, lits, k):
    w = View(cx, w, WATCH)
    if not eqv(s, w.clause, c):
        return False
    b = w.blocking_lit
    return any(b is t.sel(lits, I(j), s.decide) or eqv(s, b, t.sel(lits, I(j), s.decide))
               for j in range(3) if j != k)


class Pass(Rule):
    def __init__(self):
        self.calls = []

    def on_call(self, eng, st, call):
        if call.path == "starlit::prop::add_clause_verbatim":
            self.calls.append((st.copy(), list(call.args), call))
            return [(st, eng.fresh(call))]
        if call.path.startswith("starlit::search::backtrack_to_top"):
            for x in call.args:
                eng.havoc(st, x, eng.ty("?"), call, 0)
            return [(st, t.UNIT)]
        return None


def solver(cx):
    key = cx.key("starlit::solver::Solver::<'_>::add_clause", need=False) or \
        cx.key("starlit::solver::Solver::<'a>::add_clause")
    pr = prims.allp()
    n = []

    def verb(eng, st, c):
        n.append((st.copy(), list(c.args), c))
        st.ms = tuple(st.ms or ()) + (t.mk("added"),)
        return [(st, eng.fresh(c))]

    def top(eng, st, c):
        for x in c.args:
            b, p = eng.deref(st, x)
            eng.wr(st, b, p, eng.fresh(c, "bt"), c.fr, c.span)
        return [(st, t.UNIT)]

    pr["starlit::prop::add_clause_verbatim"] = verb
    pr["starlit::search::backtrack_to_top"] = top
    pr["<starlit::state::State as starlit::tracking::Resize>::resize"] = top1
    e, a, outs = cx.run(key, pr=pr)
    il = cx.param(key, "[starlit::lit::Lit]")
    vkey = cx.key("starlit::prop::add_clause_verbatim")
    jl = cx.param(vkey, "[starlit::lit::Lit]")
    jh = cx.param(vkey, "LongHeader")
    for s, _ in outs:
        cx.ob(len(s.ms or ()) == 1, "c31:solver:once",
              "Solver::add_clause does not add the clause exactly once", cx.where(key))
    for s, args, c in n:
        cx.ob(args[jl] is a[il] or eqv(s, e.read(s, args[jl]), t.mk("pt", a[il])),
              "c31:solver:literals", "Solver::add_clause does not pass all literals on",
              at(c.fr, c.span))
        cx.ob(prims.hget(e, s, "redundant", args[jh]) is FALSE, "c31:solver:header",
              "Solver::add_clause does not add the clause as an irredundant input clause",
              at(c.fr, c.span))


def top1(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    eng.wr(st, b, p, eng.fresh(c, "rs"), c.fr, c.span)
    return [(st, t.UNIT)]


class Visit(Rule):
    """Every clause delivered by the iteration is watched before the next one is fetched."""

    def __init__(self, cx):
        self.cx = cx
        self.fetched = 0


def rebuild(cx):
    key = cx.key("starlit::prop::watch::enable_watch_lists")
    ip = cx.param(key, PROP)
    jb = 1 - ip
    rule = Rule()
    pr = prims.allp()
    nx = pr[prims.AR + "next_clause"]
    wkey = cx.key("starlit::prop::watch::Watches::watch_clause")

    def next_clause(eng, st, c):
        few = False
        if st.ms and st.ms[0].op != "end":
            # clauses with less than two literals are not stored
            b, p = eng.deref(st, a[ip])
            lits = t.fld(t.sel(View(cx, eng.rd(st, b, p), PROP).long, st.ms[0], st.decide), 1, 2)
            few = st.decide(t.lt(t.length(lits), I(2))) is True
        cx.ob(not st.ms or few, "c31:rebuild:all", "a stored clause is skipped when the watch lists are "
              "rebuilt", at(c.fr, c.span))
        st.ms = ()
        out = nx(eng, st, c)
        for s, r in out:
            if r.op == "en" and r.args[0] == 1:
                s.ms = (r.args[1],)
            else:
                s.ms = (t.mk("end"),)
        return out

    def watch_clause(eng, st, c):
        cl = [x for x, ty in zip(c.args, c.argtys) if "ClauseRef" in ty]
        wl = [x for x, ty in zip(c.args, c.argtys) if "Lit; 2]" in ty]
        ok = st.ms and cl and st.ms[0] is cl[0]
        ob = cx.ob(bool(ok), "c31:rebuild:clause", "a clause other than the visited one is watched",
                   at(c.fr, c.span))
        if ob and wl:
            b, p = eng.deref(st, a[ip])
            long = View(cx, eng.rd(st, b, p), PROP).long
            lits = t.fld(t.sel(long, cl[0], st.decide), 1, 2)
            x, y = t.sel(wl[0], ZERO, st.decide), t.sel(wl[0], ONE, st.decide)
            l0, l1 = t.sel(lits, ZERO, st.decide), t.sel(lits, ONE, st.decide)
            cx.ob((eqv(st, x, l0) and eqv(st, y, l1)) or (eqv(st, x, l1) and eqv(st, y, l0)),
                  "c31:rebuild:lits", "a clause is watched by other than its first two literals",
                  at(c.fr, c.span))
        st.ms = ()
        return [(st, t.UNIT)]

    pr[prims.AR + "next_clause"] = next_clause
    pr["starlit::prop::watch::Watches::watch_clause"] = watch_clause
    a = [t.mk("sym", "a%d" % i) for i in range(2)]
    e, _, outs = cx.run(key, rule=rule, pr=pr)
    for s, r in outs:
        po = post(e, cx, s, a[ip], PROP)
        pv = pre(e, cx, a[ip], PROP)
        for s2, en in split(s, a[jb]):
            for s3, was in split(s2, pv.watches.enabled):
                cx.ob(s3.decide(po.watches.enabled) is en, "c31:enable:flag",
                      "the watch lists do not get the requested mode", cx.where(key))
                if en and not was:
                    cx.ob(s3.ms == (t.mk("end"),), "c31:enable:rebuild",
                          "enabling the watch lists does not watch all stored clauses",
                          cx.where(key))
                if en and was:
                    cx.ob(eqv(s3, po.watches.by_lit, pv.watches.by_lit), "c31:enable:noop",
                          "enabling enabled watch lists changes them", cx.where(key))
