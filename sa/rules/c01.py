"""Verdicts of the search, by abstract interpretation of search_step and its callers.

search_step is analysed from an arbitrary state with contracts for propagation (C05, C07), conflict
analysis and garbage collection, keeping the sequence of these calls.  For every abstract path the
returned verdict is compared with that sequence: 'satisfiable' needs a propagation without conflict
followed, with the very same assignment, by a decision picker that found nothing; 'unsatisfiable'
needs `unsat` at the start or a conflict while no decision was in force; every other conflict is
handed to conflict analysis once, every picked variable is assigned as a decision.  The callers
(schedule_search_step, Solver::solve) must return exactly what search_step returned."""
from .common import *
from .. import prims
from . import scan

RULE = "verdict of every abstract path of search_step against the recorded call sequence"
ASSUMES = ["the list of decisions keeps its fixed first entry (C03, C07)",
           "propagation processes everything before it succeeds (C05)",
           "the picker reports none only when the pool is empty (C02)"]

STEPFN = "starlit::search::search_step"


def contracts(cx, also=("unsat",)):
    pr = prims.allp()
    pr[COLLECT] = collect_contract(cx)
    pr[PROPAGATE] = propagate_contract(cx)

    def analyze(eng, st, c):
        p = arg_view(eng, cx, st, c, PROP)
        event(st, "analyze", arg(c, "ConflictClause"))
        hav_fields(eng, cx, st, c, PROP, "values", "long", "watches", "trail", "binary", *also)
        return [(st, t.UNIT)]

    def pop(eng, st, c):
        vals = eng.read(st, arg(c, "PartialAssignment"))
        v = eng.fresh(c)
        eng.disc_types[t.disc(v)] = [0, 1]
        b, p = eng.deref(st, arg(c, "Vsids"))
        eng.wr(st, b, p, eng.fresh(c, "vsids"), c.fr, c.span)
        out = []
        for s, none in eng.fork(st, t.eq(t.disc(v), ZERO)):
            x = t.vfld(v, 1, 0)
            event(s, "pop", vals, t.en(0) if none else t.en(1, x))
            if not none:
                s.assume(mk("as", vals, x), False)
            out.append((s, t.en(0) if none else t.en(1, x)))
        return out
    pr[ANALYZE] = analyze
    pr[POPVAR] = pop
    return pr


def nonempty(cx, isr):
    """The list of decisions starts with a fixed entry."""
    from ..state import State
    st = State()
    p = View(cx, mk("pt", mk("sym", "a%d" % isr)), SEARCH)
    st.assume(t.le(ONE, t.length(p.prop.trail.decisions)))
    return st


def run(cx):
    step(cx)
    callers(cx)


def step(cx):
    key = cx.key(STEPFN)
    isr = cx.param(key, SEARCH)
    w = cx.where(STEPFN)
    e, a, outs = cx.run(key, pr=contracts(cx), st=nonempty(cx, isr))
    cx.ob(bool(outs), "c01:returns", "search_step never returns", w)
    pp0 = pre(e, cx, a[isr], SEARCH).prop
    kinds = set()
    for s0, r0 in outs:
        for s1, some_, r in variants(e, s0, r0, 2):
            for s, val in (split(s1, t.vfld(r, 1, 0)) if some_ else [(s1, None)]):
                kinds.add(val)
                po = post(e, cx, s, a[isr], SEARCH).prop
                for s2, unsat0 in split(s, pp0.unsat):
                    one(cx, s2, unsat0, val, po, pp0, w)
    for v in (True, False, None):
        cx.ob(v in kinds, "c01:kind:%s" % v, "search_step never returns %s" % v, w)


def one(cx, s, unsat0, val, po, pp0, w):
    evs = events(s)
    pops, props, ans = (events(s, x) for x in ("pop", "propagate", "analyze"))
    if unsat0:
        cx.ob(val is False, "c01:contradictory",
              "a formula already found contradictory is not reported as unsatisfiable", w)
        return
    last = props[-1] if props else None
    err = [p for p in props if p.args[1] is ZERO]
    if val is True:
        ok = last is not None and last.args[1] is ONE
        cx.ob(ok, "c01:sat:propagated", "'satisfiable' is returned without a propagation that "
              "ended without conflict", w)
        ok2 = ok and evs and evs[-1].args[0] == "pop" and evs[-1].args[2].args[0] == 0
        cx.ob(bool(ok2), "c01:sat:complete", "'satisfiable' is returned although the decision picker "
              "was not asked or has found a variable", w)
        if ok and ok2:
            cx.ob(eqv(s, last.args[2], evs[-1].args[1]) and eqv(s, last.args[2], po.values),
                  "c01:sat:same", "'satisfiable' is returned for another assignment than the one "
                  "that was propagated", w)
        cx.ob(not ans and not err, "c01:sat:conflict", "'satisfiable' is returned after a conflict",
              w)
        return
    top = [p for p in err if s.decide(t.eq(t.length(p.args[3]), ONE)) is True]
    if val is False:
        cx.ob(bool(top), "c01:unsat:top", "'unsatisfiable' is returned without a conflict at the "
              "top level", w)
        if top:
            cx.ob(s.decide(po.unsat) is True, "c01:unsat:flag", "the contradiction is not recorded",
                  w)
        return
    # no verdict: exactly one thing happened
    for p in err:
        got = [q for q in ans if eqv(s, q.args[1], p.args[4])]
        cx.ob(len(got) == 1 and len(ans) == 1, "c01:analyzed", "a conflict is not analysed exactly "
              "once", w)
        cx.ob(s.decide(t.eq(t.length(p.args[3]), ONE)) is False, "c01:top-conflict",
              "a conflict at the top level gives no verdict", w)
    cx.ob(bool(err) or not ans, "c01:spurious", "conflict analysis runs without a conflict", w)
    for q in pops:
        if q.args[2].args[0] == 0:
            cx.ob(False, "c01:none-left", "the search goes on although nothing is left to decide", w)
            continue
        x = q.args[2].args[1]
        V = po.values
        inner, ops = chain(V, "asg")
        ok = len(ops) == 1 and eqv(s, inner, q.args[1]) and eqv(s, var(ops[0].args[1]), x)
        cx.ob(ok, "c01:assigned", "the variable picked for a decision is not assigned", w)
        D, L = chain(po.trail.decisions, "push")
        cx.ob(len(L) == 1 and last is not None and eqv(s, D, last.args[3]), "c01:decision",
              "a decision opens no new level", w)
        cx.ob(last is not None and last.args[1] is ONE and eqv(s, last.args[2], q.args[1]),
              "c01:decide-late", "a decision is made before propagation is complete", w)
    cx.ob(bool(err) or bool(pops), "c01:progress", "a step neither decides, learns nor answers", w)


def callers(cx):
    """Functions that call search_step return its answer, unchanged, and call it once."""
    users = {}
    for k, b in scan.bodies(cx.lib):
        for rec, tm, sp, bl in scan.calls(b):
            if rec and scan.callee(rec) == STEPFN:
                users[k] = b
    cx.ob(bool(users), "c01:callers", "nobody calls search_step")
    todo = dict(users)
    done = {STEPFN}
    target = STEPFN
    level = 0
    while todo and level < 4:
        nxt = {}
        for k, b in todo.items():
            forward(cx, k, b, target)
            for k2, b2 in scan.bodies(cx.lib):
                for rec, tm, sp, bl in scan.calls(b2):
                    if rec and scan.callee(rec) == b.path and b2.path not in done:
                        nxt[k2] = b2
            done.add(b.path)
            target = b.path
        todo = nxt
        level += 1


def forward(cx, k, b, target):
    pr = prims.allp()

    def stepc(eng, st, c):
        v = eng.fresh(c)
        eng.disc_types[t.disc(v)] = [0, 1]
        st.ms = (mk("ans", v),)
        for x, ty in zip(c.args, c.argtys):
            if ty.startswith("&mut"):
                bb, p = eng.deref(st, x)
                eng.wr(st, bb, p, eng.fresh(c, "h" + ty[-3:]), c.fr, c.span)
        return [(st, v)]
    pr[target] = stepc
    for f in ("starlit::search::reduce::reduce", "starlit::search::restart",
              "starlit::search::backtrack_to_top"):
        def other(eng, st, c):
            if st.ms:
                st.ms = (mk("changed"),)
            return hav_call(eng, st, c)
        pr[f] = other
    e, a, outs = cx.run(k, pr=pr)
    rty = b.locals[0][0]
    for s, r in outs:
        ok = len(s.ms or ()) == 1 and s.ms[0].op == "ans"
        if ok:
            v = s.ms[0].args[0]
            if "Option" in rty:
                ok = r is v or (r.op == "en" and s.decide(t.eq(t.disc(v), I(r.args[0]))) is True
                                and (len(r.args) == 1 or eqv(s, r.args[1], t.vfld(v, 1, 0))))
            else:
                ok = s.decide(t.eq(t.disc(v), ONE)) is True and eqv(s, r, t.vfld(v, 1, 0))
        cx.ob(ok, "c01:caller:%s" % b.path, "%s does not return the answer of the search step "
              "unchanged" % b.path, b.path)
    cx.ob(bool(outs), "c01:caller-returns:%s" % b.path, "%s never returns" % b.path, b.path)
