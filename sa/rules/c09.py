"""Proof logging of learned clauses, by abstract interpretation of conflict analysis and of
Solver::add_clause with a record of everything handed to the proof writer and to the clause database.

analyze_conflict is analysed from an arbitrary state with contracts for derivation, minimisation and
backtracking: on every abstract path with an active proof writer each clause handed to
add_clause_verbatim was logged before, once, as an addition with the identical literal array; without
a writer nothing is assumed.  Solver::add_clause must log nothing but empty clauses.  Queries over
the call graph establish that clauses reach the database only through these two functions."""
from .common import *
from .. import prims
from . import scan, c11
from .c11 import ADD

RULE = "log entries and stored clauses of every abstract path of analyze_conflict"
ASSUMES = ["add_clause_verbatim stores what it is given (C31)"]

STORES = ("starlit::prop::binary::BinaryClauses::add_clause", prims.AR + "add_clause")


def analysis_contracts(cx, keep=()):
    pr = prims.allp()
    for p in (scan.deriving(cx), "starlit::minimize::minimize",
              "starlit::glue::compute_glue"):
        if p not in keep:
            pr[p] = forget(cx)
    pr[BACKTRACK] = backtrack_contract(cx)
    return pr


def forget(cx):
    """Everything reachable through mutable references changes; values and trail do not."""
    def f(eng, st, c):
        for k, (x, ty) in enumerate(zip(c.args, c.argtys)):
            if not ty.startswith("&mut"):
                continue
            if PROP in ty:
                hav_fields(eng, cx, st, c, PROP, "long")
                continue
            if CTX in ty:
                continue
            b, p = eng.deref(st, x)
            if eng.has_ref(ty.split(" ", 1)[1]):
                continue
            eng.wr(st, b, p, eng.fresh(c, "fg%d" % k), c.fr, c.span)
        v = eng.fresh(c)
        ti = eng.tinfo(c.destty)
        return [(st, t.UNIT if ti == ("struct", []) else v)]
    return f


def backtrack_contract(cx):
    """The statement of C03."""
    def f(eng, st, c):
        p = arg_view(eng, cx, st, c, PROP)
        lvl = arg(c, "DecisionLevel")
        event(st, "backtrack", lvl, p.trail.decisions)
        D, S, Q = p.trail.decisions, p.trail.steps, p.trail.propagated
        if not st.assume(t.lt(lvl, t.sub(t.length(D), ONE))):
            return []
        tgt = t.sel(D, t.add(lvl, ONE), st.decide)
        b, pa = eng.deref(st, arg(c, PROP))
        for names, v in ((("values",), mk("bt", p.values, tgt)),
                         (("trail", "steps"), t.subarr(S, ZERO, tgt)),
                         (("trail", "decisions"), t.subarr(D, ZERO, t.add(lvl, ONE))),
                         (("trail", "propagated"), eng.fresh(c, "propagated"))):
            eng.wr(st, b, pa + fpath(cx, PROP, *names), v, c.fr, c.span)
        p = arg_view(eng, cx, st, c, PROP)
        st.assume(t.le(p.trail.propagated, tgt))
        st.assume(t.le(p.trail.propagated, Q))
        st.assume(t.le(tgt, t.length(S)))
        return [(st, t.UNIT)]
    return f


def recorder(cx):
    def add(eng, st, c):
        lits = eng.read(st, arg(c, "[starlit::lit::Lit]"))
        event(st, "store", lits, arg(c, "LongHeader"))
        p = arg_view(eng, cx, st, c, PROP)
        r = eng.fresh(c)
        eng.disc_types[t.disc(r)] = [0, 1, 2, 3]
        hav_fields(eng, cx, st, c, PROP, "unsat", "values", "binary", "long", "watches",
                   "trail.steps", "trail.trail_index")
        return [(st, r)]
    return add


def run(cx):
    learned(cx)
    inputs(cx)
    ways(cx)


def learned(cx):
    key = cx.key(ANALYZE)
    w = cx.where(ANALYZE)
    pr = c11.logging(analysis_contracts(cx))
    pr[ADD] = recorder(cx)
    e, a, outs = cx.run(key, pr=pr)
    ic = cx.param(key, "context::Ctx")
    cx.ob(bool(outs), "c09:returns", "conflict analysis never returns", w)
    n = 0
    for s, _ in outs:
        evs = [m for m in events(s) if m.args[0] in ("store", "logadd", "logdel")]
        for i, m in enumerate(evs):
            if m.args[0] == "store":
                n += 1
                if c11.proof_none(e, cx, s, a[ic]):
                    continue
                before = [q for q in evs[:i] if q.args[0] == "logadd"
                          and eqv(s, q.args[1], m.args[1])]
                cx.ob(len(before) >= 1, "c09:logged", "a learned clause is stored that was not "
                      "logged before with the same literals", w)
                cx.ob(len(before) <= 1, "c09:twice", "a learned clause is logged twice", w)
            if m.args[0] == "logadd":
                after = [q for q in evs[i + 1:] if q.args[0] == "store"
                         and eqv(s, q.args[1], m.args[1])]
                cx.ob(bool(after), "c09:unstored", "a clause is logged that is not stored", w)
            if m.args[0] == "logdel":
                cx.ob(False, "c09:deleted", "conflict analysis logs a deletion", w)
    cx.ob(n > 0, "c09:stores", "conflict analysis stores no clause", w)


def inputs(cx):
    path = "starlit::solver::Solver::<'a>::add_clause"
    key = cx.key(path)
    pr = c11.logging(prims.allp())
    pr[BACKTRACK] = backtrack_contract(cx)
    e, a, outs = cx.run(key, pr=pr)
    for s, _ in outs:
        for m in events(s):
            if m.args[0] == "logadd":
                cx.ob(c11.is_empty(s, m.args[1]), "c09:input", "adding an input clause writes it "
                      "to the proof", cx.where(path))
            if m.args[0] == "logdel":
                cx.ob(False, "c09:input-deleted", "adding an input clause logs a deletion",
                      cx.where(path))
    cx.ob(bool(outs), "c09:input-returns", "Solver::add_clause never returns", cx.where(path))


def ways(cx):
    cm = scan.callmap(cx.lib)
    roots = {ANALYZE, "starlit::solver::Solver::<'a>::add_clause"}
    for p in (ADD,) + STORES:
        bad = scan.only_from(cm, p, roots)
        cx.ob(not bad, "c09:way:%s" % p, "clauses are added through %s, which is not analysed"
              % ", ".join(sorted(bad)), p)
    direct = set()
    for p in STORES:
        direct |= cm.get(p, set())
    for d in sorted(direct):
        bad = scan.only_from(cm, d, {ADD})
        cx.ob(not bad, "c09:store:%s" % d, "clauses are stored by %s outside of "
              "add_clause_verbatim" % d, d)
    # the proof writer is called from analysed functions only
    for q in (c11.LOGADD,):
        for d in sorted(cm.get(q, ())):
            if d.startswith(("starlit::proof::", "<starlit::proof::")):
                continue        # the writers themselves (C13)
            bad = scan.only_from(cm, d, roots | {"starlit::search::search_step"})
            cx.ob(not bad, "c09:log:%s" % d, "%s writes to the proof and is not analysed" % d, d)
