"""Adding clauses after solving, by abstract interpretation of Solver::add_clause.

Solver::add_clause is analysed from an arbitrary solver state (any decision level, any number of
propagated literals) with the contract of backtracking (C03).  Whenever it hands a clause to the
formula no decision is in force, and on every return nothing but the bottom of the trail counts as
propagated, unless the formula is already contradictory.  A query establishes that the solving loop
and Solver::add_clause are the only ways in which the public solver changes the formula."""
from .common import *
from .. import prims
from . import scan, c09
from .c09 import ADD

RULE = "decision level and propagated count at every store and return of Solver::add_clause"
ASSUMES = ["backtracking restores the state of the target level (C03)",
           "propagation starts at the propagated count and covers all literals after it (C05)"]

ADDC = "starlit::solver::Solver::<'a>::add_clause"


def run(cx):
    key = cx.key(ADDC)
    w = cx.where(ADDC)
    isv = cx.param(key, SOLVER)
    pr = prims.allp()
    pr[BACKTRACK] = c09.backtrack_contract(cx)

    def add(eng, st, c):
        p = arg_view(eng, cx, st, c, PROP)
        event(st, "store", eng.read(st, arg(c, "[starlit::lit::Lit]")), p.trail.decisions)
        hav_fields(eng, cx, st, c, PROP, "unsat", "values", "binary", "long", "watches",
                   "trail.steps", "trail.trail_index")
        r = eng.fresh(c)
        eng.disc_types[t.disc(r)] = [0, 1, 2, 3]
        return [(st, r)]
    pr[ADD] = add
    st0 = start(cx, isv)
    e, a, outs = cx.run(key, pr=pr, st=st0)
    il = cx.param(key, "[starlit::lit::Lit]")
    cx.ob(bool(outs), "c32:returns", "Solver::add_clause never returns", w)
    n = 0
    for s, _ in outs:
        v = post(e, cx, s, a[isv], SOLVER)
        p = v.state.search.prop
        es = events(s, "store")
        if not es:
            cx.ob(s.decide(p.unsat) is True, "c32:stored", "a clause is not added to a formula that "
                  "is not known to be contradictory", w)
        cx.ob(len(es) <= 1, "c32:once", "a clause is added more than once", w)
        for m in es:
            n += 1
            D = m.args[2]
            cx.ob(s.decide(t.eq(t.length(D), ONE)) is True, "c32:level", "a clause is added while "
                  "decisions are in force", w)
            cx.ob(eqv(s, m.args[1], mk("pt", a[il])), "c32:clause", "another clause than the given "
                  "one is added", w)
        cx.ob(s.decide(t.eq(t.length(p.trail.decisions), ONE)) is True, "c32:level-after",
              "decisions are in force after a clause was added", w)
        P_ = p.trail.propagated
        ok = s.decide(t.eq(P_, ZERO)) is True or s.decide(p.unsat) is True \
            or s.decide(t.eq(t.length(p.trail.steps), ZERO)) is True
        cx.ob(ok, "c32:propagated", "literals assigned before a clause was added still count as "
              "propagated afterwards", w)
    cx.ob(n > 0, "c32:stores", "Solver::add_clause adds nothing", w)
    # other public ways to add
    cm = scan.callmap(cx.lib)
    bad = scan.only_from(cm, ADD, {ADDC, ANALYZE})
    cx.ob(not bad, "c32:ways", "clauses are also added by %s" % ", ".join(sorted(bad)), ADD)


def start(cx, isv):
    from ..state import State
    st = State()
    v = View(cx, mk("pt", mk("sym", "a%d" % isv)), SOLVER)
    tr = v.state.search.prop.trail
    st.assume(t.le(ONE, t.length(tr.decisions)))
    st.assume(t.le(tr.propagated, t.length(tr.steps)))
    return st
