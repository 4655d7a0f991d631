"""Clause deletion, by abstract interpretation of clause database reduction.

reduce is analysed from an arbitrary state.  The clause handed to the storage for deletion must, on
every abstract path, have a header that is known to be redundant, unprotected and above the core glue
limit: directly, or because it was taken from a list all of whose entries satisfied this when they
were added (an inductively proved property of the list that storage updates preserve).  At that
moment every clause that is a reason on the trail is known to be protected (proved over the loop that
protects them), and on every return none of them is.  With an active proof writer each deletion is
preceded by one logged deletion with the literals stored at that moment.  Queries establish that
nothing else deletes clauses or logs deletions."""
from .common import *
from .. import prims
from ..state import State
from . import scan, c11

RULE = "header facts, protection and log at every deletion in reduce"
ASSUMES = ["headers keep their fields (C20)", "storage operations touch one clause (C15, C38)"]

REDUCE = "starlit::search::reduce::reduce"
DELETE = prims.AR + "delete_clause"
LOGDEL = "starlit::proof::Proof::delete_clause"
CORE = 2


def header(st, arena, c):
    return t.fld(t.sel(arena, c, st.decide), 0, 2)


def ok_header(eng, st, arena, c):
    h = header(st, arena, c)
    g = prims.hget(eng, st, "glue", h)
    return st.decide(prims.hget(eng, st, "redundant", h)) is True \
        and st.decide(prims.hget(eng, st, "protected", h)) is False \
        and st.decide(t.lt(I(CORE), g)) is True


def hbase(h, *names):
    """The header below stores to other fields."""
    while h.op == "hset" and h.args[1] not in names:
        h = h.args[0]
    return h


def keeps(st, old, new, names, allow=()):
    """Whether storage `new` is `old` up to header changes of other fields and literal changes."""
    n = 0
    while new is not old:
        n += 1
        if new.op != "store" or n > 40:
            return False
        v = new.args[2]
        h1 = hbase(t.fld(v, 0, 2), *names)
        inner = new.args[0]
        h0 = hbase(t.fld(t.sel(inner, new.args[1], st.decide), 0, 2), *names)
        if h1 is not h0:
            if not (allow and h1.op == "hset" and h1.args[1] == allow[0]
                    and st.decide(h1.args[2]) is allow[1]
                    and hbase(h1.args[0], *names) is h0):
                return False
        new = inner
    return True


class Cand(Pred):
    def __init__(self, rule, k):
        self.rule, self.k = rule, k

    def clause(self, st, a, i):
        x = t.sel(a, i, st.decide)
        if self.k is None:
            return x
        if x.op == "st":
            return x.args[self.k] if self.k < len(x.args) else None
        return None

    def check(self, st, a, i, v):
        c = self.clause(st, a, i)
        return c is not None and c.op not in ("st", "en") and ok_header(self.rule.eng, st, v, c)

    def persists(self, st, old, new):
        return keeps(st, old, new, ("redundant", "protected", "glue"))


class Prot(Pred):
    """The trail entry has no long reason, or its clause has the protected flag `want`."""

    def __init__(self, cx, rule, want):
        self.cx, self.rule, self.want = cx, rule, want

    def check(self, st, a, i, v):
        r = View(self.cx, t.sel(a, i, st.decide), STEP).reason
        k, n = self.rule.long
        is_long = st.decide(t.eq(t.disc(r), I(k)))
        if is_long is False:
            return True
        if is_long is None:
            return False
        h = header(st, v, t.vfld(r, k, 0))
        return st.decide(prims.hget(self.rule.eng, st, "protected", h)) is self.want

    def persists(self, st, old, new):
        return keeps(st, old, new, ("protected",), ("protected", self.want))


class R(Rule):
    def __init__(self, cx, ptr, ic):
        self.cx, self.ptr, self.eng, self.ic = cx, ptr, None, ic
        vs = cx.lay.adt(REASON)[1]["variants"]
        k = [i for i, v in enumerate(vs) if any("ClauseRef" in f["ty"] for f in v["fields"])]
        self.long = (k[0], len(vs))
        self.preds = {"CAND": Cand(self, None), "CAND0": Cand(self, 0), "CAND1": Cand(self, 1),
                      "CAND2": Cand(self, 2), "PROT": Prot(cx, self, True),
                      "UNPROT": Prot(cx, self, False)}
        self.deleted = 0

    def view(self, st):
        return View(self.cx, self.eng.getbase(st, P(self.ptr)), SEARCH).prop

    def loop_alls(self, eng, fr, h, head, phis, states, sigma):
        self.eng = eng
        v = self.view(head)
        ivs = int_bounds(head, phis, states, sigma)
        S = v.trail.steps
        for ph, e0 in ivs:
            for p in ("PROT", "UNPROT"):
                yield mk("all", S, e0, ph, p, v.long)
                yield mk("all", S, ph, e0, p, v.long)
        for loc, ph in phis.items():
            if any(g[ph].op in ("vnil", "push") for g in sigma if ph in g):
                for p in ("CAND", "CAND0", "CAND1", "CAND2"):
                    yield mk("all", ph, ZERO, t.length(ph), p, v.long)

    def on_backedge(self, eng, st, fr, h):
        self.pending(st, fr.body.path)

    def pending(self, st, where):
        if events(st, "logged"):
            self.cx.ob(False, "c10:log:undone", "a deletion is logged that does not happen", where)


def run(cx):
    key = cx.key(REDUCE)
    w = cx.where(REDUCE)
    isr, ic = cx.param(key, SEARCH), cx.param(key, "context::Ctx")
    a = [mk("sym", "a%d" % i) for i in range(len(cx.params(key)))]
    rule = R(cx, a[isr], ic)
    pr = prims.allp()
    del0 = pr[DELETE]

    def logdel(eng, st, c):
        event(st, "logged", eng.read(st, c.args[1]))
        return [(st, t.UNIT)]

    def dele(eng, st, c):
        rule.eng = eng
        rule.deleted += 1
        v = rule.view(st)
        A = v.long
        b, p = eng.deref(st, c.args[0])
        site = at(c.fr, c.span)
        ok = b == P(a[isr]) and p == fpath(cx, SEARCH, "prop", "long")
        cx.ob(ok, "c10:storage", "clauses are deleted from another storage", site)
        cl = c.args[1]
        cx.ob(fit(eng, st, A, cl), "c10:candidate", "a clause is deleted that is not known to be a "
              "redundant, unprotected clause above the core glue limit", site)
        S = v.trail.steps
        cx.ob(st.decide_all(mk("all", S, ZERO, t.length(S), "PROT", A)) is True, "c10:protected",
              "a clause is deleted while reasons of current assignments are not protected", site)
        lits = t.fld(t.sel(A, cl, st.decide), 1, 2)
        logs = events(st, "logged")
        st.ms = tuple(m for m in st.ms or () if m not in logs)
        if not proof_off(eng, cx, st, a[ic]):
            cx.ob(len(logs) == 1, "c10:logged", "a deletion is not logged exactly once before it "
                  "happens" if not logs else "several deletions are logged for one", site)
            for m in logs:
                cx.ob(eqv(st, m.args[1], lits), "c10:logged:lits", "a deletion is logged with other "
                      "literals than the clause has", site)
        else:
            cx.ob(not logs, "c10:logged:none", "a deletion is logged without a proof writer", site)
        return del0(eng, st, c)

    def fit(eng, st, A, cl):
        if ok_header(eng, st, A, cl):
            return True
        k = None
        x = cl
        if x.op == "fld":
            k, x = x.args[1], x.args[0]
        if x.op != "sel":
            return False
        arr = x.args[0]
        while arr.op in ("perm", "sub", "swp", "rev"):
            arr = arr.args[0]
        return st.decide_all(mk("all", arr, ZERO, t.length(arr), "CAND" + ("" if k is None else
                                                                           str(k)), A)) is True
    pr[LOGDEL] = logdel
    pr[DELETE] = dele
    st = State()
    st.preds = rule.preds
    e, _, outs = cx.run(key, args=dict(enumerate(a)), st=st, rule=rule, pr=pr)
    rule.eng = e
    cx.ob(bool(outs), "c10:returns", "reduce never returns", w)
    cx.ob(rule.deleted > 0, "c10:deletes", "reduce deletes nothing", w)
    v0 = View(cx, mk("pt", a[isr]), SEARCH).prop
    for s, _ in outs:
        v = rule.view(s)
        S = v.trail.steps
        cx.ob(s.decide_all(mk("all", S, ZERO, t.length(S), "UNPROT", v.long)) is True,
              "c10:unprotected", "reasons are still protected after a reduction", w)
        cx.ob(eqv(s, v.trail.t, v0.trail.t) and eqv(s, v.values, v0.values), "c10:trail",
              "a reduction changes the trail or the values", w)
        rule.pending(s, w)
    elsewhere(cx)


def proof_off(eng, cx, st, ptr):
    return c11.proof_none(eng, cx, st, ptr)


def elsewhere(cx):
    cm = scan.callmap(cx.lib)
    for p in (DELETE, LOGDEL):
        cs = {x for x in cm.get(p, ()) if not x.startswith(("starlit::proof::", "<starlit::proof::"))}
        for x in sorted(cs):
            bad = scan.only_from(cm, x, {REDUCE})
            cx.ob(not bad, "c10:elsewhere:%s:%s" % (p, x), "%s deletes clauses or logs deletions and "
                  "is called by %s" % (x, ", ".join(sorted(bad))), x)
    # protection is set by reduce only
    for x in sorted(cm.get(prims.LH + "set_protected", ())):
        bad = scan.only_from(cm, x, {REDUCE})
        cx.ob(not bad, "c10:protection:" + x, "%s changes the protection of clauses outside of a "
              "reduction" % x, x)
