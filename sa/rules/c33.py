"""Restart and reduction schedules, by abstract interpretation of schedule_search_step and of the
restart sequence.

The generator of restart intervals is shown to return at least one at every call by an inductive
invariant over its state (initial value and every abstract path of `advance`).  schedule_search_step
is analysed with that contract, from an arbitrary state: on every abstract path that restarts, the
restart threshold was reached and afterwards lies beyond the number of conflicts; on every path that
reduces, the reduction threshold was reached and has grown (the square root is evaluated by
monotone intervals); the other paths leave the thresholds alone.  What reaches search_step is the
given search state, backtracked to the top level or not at all."""
from .common import *
from .. import prims
from . import scan, c09

RULE = "thresholds and search state on every abstract path of schedule_search_step"
ASSUMES = ["counters do not overflow 64 bits", "backtracking to the top keeps the top level (C03)"]

SCHED = "starlit::state::Schedule"
STEPF = "starlit::state::schedule_search_step"
LUBY = "starlit::state::luby::LubySequence"
REDUCE = "starlit::search::reduce::reduce"

FTY.update({(STATE, "search"): "search::Search", (STATE, "schedule"): "Schedule",
            (SCHED, "restart_schedule"): "LubySequence", (CTX, "stats"): "Stats"})


def flo(st, x):
    """A lower bound of a floating point term, or None."""
    import struct
    if x.op == "flt":
        return struct.unpack("<f" if x.args[1] == 4 else "<d",
                             x.args[0].to_bytes(x.args[1] or 8, "little"))[0]
    if x.op == "i2f":
        for k in (4, 3, 2, 1, 0):
            if st.decide(t.le(I(k), x.args[0])) is True:
                return float(k)
        return None
    if x.op == "f2f":
        return flo(st, x.args[0])
    if x.op == "ffn":
        n = x.args[0]
        a = [flo(st, y) for y in x.args[1:]]
        if n == "sqrt":
            return None if a[0] is None or a[0] < 0 else a[0] ** 0.5
        if n in ("floor", "round", "ceil"):
            return None if a[0] is None else float(a[0] // 1)
        if n == "ln":
            import math
            return None if a[0] is None or a[0] < 1 else math.log(a[0])
        if n == "max":
            a = [y for y in a if y is not None]
            return max(a) if a else None
        if n == "min":
            return None if None in a else min(a)
        if n == "abs":
            return 0.0
        if n in ("powf", "powi"):
            return 1.0 if a[0] is not None and a[0] >= 1 and a[1] is not None and a[1] >= 0 else \
                None
        return None
    if x.op == "fop":
        a, b = flo(st, x.args[1]), flo(st, x.args[2])
        if a is None or b is None:
            return None
        op = x.args[0]
        if op.startswith("Add"):
            return a + b
        if op.startswith("Mul") and a >= 0 and b >= 0:
            return a * b
    return None


def ilo(st, x):
    """Whether an integer term is at least one."""
    if st.decide(t.le(ONE, x)) is True:
        return True
    c, d = t.lin_parts(x)
    # sum of non-negative parts with one part that is known to be positive
    best = False
    tot = c
    for y, k in d.items():
        if k < 0:
            return False
        if y.op == "f2i":
            v = flo(st, y.args[0])
            if v is None or v < 0:
                return False
            tot += k * int(v)
        else:
            for m in (1, 0):
                if st.decide(t.le(I(m), y)) is True:
                    tot += k * m
                    break
            else:
                return False
    return tot >= 1


def run(cx):
    adv = luby(cx)
    step(cx, adv)


def luby(cx):
    """Every interval is at least one.  Returns the functions that yield intervals."""
    fns = [k for k in cx.lib.raw if cx.lib.body(k) and cx.lib.body(k).path.startswith(LUBY + "::")
           and "{closure" not in cx.lib.body(k).path]
    v_i, _ = cx.lay.idx(LUBY, "v", None)
    u_i, _ = cx.lay.idx(LUBY, "u", None)
    out = []
    # initial state
    for k, b in scan.bodies(cx.lib):
        if not b.path.startswith("<" + LUBY) and not b.path.startswith(LUBY + "::"):
            continue
        if b.locals[0][0] == LUBY:
            e, a, outs = cx.run(k, pr=prims.allp())
            for s, r in outs:
                r = View(cx, r, LUBY)
                ok = s.decide(t.le(ONE, r.v)) is True and s.decide(t.le(ONE, r.u)) is True
                cx.ob(ok, "c33:interval:new", "the restart sequence starts with an interval of "
                      "zero", b.path)
            cx.ob(bool(outs), "c33:interval:create", "the restart sequence cannot be created",
                  b.path)
            continue
        if not b.argc or LUBY not in b.locals[1][0]:
            continue
        from ..state import State
        st = State()
        p0 = View(cx, mk("pt", mk("sym", "a0")), LUBY)
        st.assume(t.le(ONE, p0.v))
        st.assume(t.le(ONE, p0.u))
        e, a, outs = cx.run(k, pr=prims.allp(), st=st)
        w = cx.where(b.path)
        for s, r in outs:
            q = post(e, cx, s, a[0], LUBY)
            if b.locals[0][0] == "u64":
                cx.ob(s.decide(t.le(ONE, r)) is True, "c33:interval:value",
                      "an interval of zero can be returned", w)
            cx.ob(s.decide(t.le(ONE, q.u)) is True, "c33:interval:u", "the position in the restart "
                  "sequence can become zero", w)
            ok = s.decide(t.le(ONE, q.v)) is True
            grown = not (s.decide(t.le(q.v, p0.v)) is True or s.decide(t.le(q.v, ONE)) is True)
            if ok and grown:
                # doubling stops before the value overflows: it is below the lowest bit of u
                ok = eqv(s, q.u, p0.u) and eqv(s, q.v, t.scale(p0.v, 2)) and below(s, p0)
            cx.ob(ok, "c33:interval:next", "the next interval can become zero", w)
        cx.ob(bool(outs), "c33:interval:returns", "the restart sequence does not return", w)
        out.append(b.path)
    cx.ob(bool(out), "c33:interval", "no restart sequence found")
    return out


def below(s, p):
    """Whether the path is one on which v differs from the lowest set bit of u."""
    u, v = p.u, p.v
    u1 = t.sub(u, ONE)
    neg_ = [t.sub(ZERO, u), t.add(mk("inv", u, 64), ONE), mk("inv", u1, 64)]
    low = [t.band(u, y) for x in neg_ for y in (x, mk("wrapu", x, 64), t.trunc(x, 64))]
    low += [t.shl(ONE, mk("fn", "trailing_zeros", u)), t.bxor(u, t.band(u, u1)),
            t.sub(u, t.band(u, u1))]
    return any(s.decide(t.eq(x, v)) is False for x in low)


def step(cx, adv):
    key = cx.key(STEPF)
    w = cx.where(STEPF)
    ist, ic = cx.param(key, STATE), cx.param(key, "context::Ctx")
    pr = prims.allp()
    pr[BACKTRACK] = c09.backtrack_contract(cx)

    def interval(eng, st, c):
        b, p = eng.deref(st, c.args[0])
        eng.wr(st, b, p, eng.fresh(c, "seq"), c.fr, c.span)
        if c.destty != "u64":
            return [(st, eng.fresh(c))]
        v = eng.fresh(c)
        st.assume(t.le(ONE, v))
        return [(st, v)]
    for f in adv:
        pr[f] = interval

    def reduce_(eng, st, c):
        event(st, "reduce")
        b, p = eng.deref(st, arg(c, SEARCH))
        eng.wr(st, b, p + fpath(cx, SEARCH, "prop", "long"), eng.fresh(c, "long"), c.fr, c.span)
        return [(st, t.UNIT)]

    def search(eng, st, c):
        event(st, "step", eng.read(st, arg(c, SEARCH)))
        v = eng.fresh(c)
        eng.disc_types[t.disc(v)] = [0, 1]
        return [(st, v)]

    def report(eng, st, c):
        return [(st, t.UNIT)]
    pr[REDUCE] = reduce_
    pr["starlit::search::search_step"] = search
    pr["starlit::report::report"] = report
    from ..state import State
    st = State()
    p0 = View(cx, mk("pt", mk("sym", "a%d" % ist)), STATE)
    c0 = View(cx, mk("pt", mk("sym", "a%d" % ic)), CTX)
    st.assume(t.le(ONE, t.length(p0.search.prop.trail.decisions)))
    for x in (p0.schedule.reductions, p0.schedule.next_restart, p0.schedule.next_reduce,
              c0.stats.search.conflicts, c0.stats.search.restarts):
        st.assume(t.le(ZERO, x))
    e, a, outs = cx.run(key, pr=pr, st=st)
    n0, n1 = p0.schedule.next_restart, p0.schedule.next_reduce
    cf = c0.stats.search.conflicts
    seen = set()
    D0, S0, V0 = (p0.search.prop.trail.decisions, p0.search.prop.trail.steps, p0.search.prop.values)
    for s, _ in outs:
        q, c = post(e, cx, s, a[ist], STATE), post(e, cx, s, a[ic], CTX)
        cx.ob(eqv(s, c.stats.search.conflicts, cf), "c33:conflicts", "scheduling changes the number "
              "of conflicts", w)
        bts = events(s, "backtrack")
        counted = not eqv(s, c.stats.search.restarts, c0.stats.search.restarts)
        if bts or counted:
            seen.add("restart")
            cx.ob(s.decide(t.le(n0, cf)) is True, "c33:restart:due", "a restart happens before its "
                  "threshold is reached", w)
            cx.ob(ilo(s, t.sub(q.schedule.next_restart, cf)), "c33:restart:next",
                  "after a restart the next one is already due", w)
        else:
            cx.ob(s.decide(t.le(n0, q.schedule.next_restart)) is True, "c33:restart:keep",
                  "the restart threshold is lowered without a restart", w)
        for m in bts:
            cx.ob(s.decide(t.eq(m.args[1], ZERO)) is True, "c33:restart:top", "a restart backtracks "
                  "to another level than the top level", w)
        if events(s, "reduce"):
            seen.add("reduce")
            cx.ob(len(events(s, "reduce")) == 1, "c33:reduce:once", "one step reduces twice", w)
            cx.ob(s.decide(t.le(n1, cf)) is True, "c33:reduce:due", "a reduction happens before its "
                  "threshold is reached", w)
            cx.ob(ilo(s, t.sub(q.schedule.next_reduce, n1)), "c33:reduce:next",
                  "a reduction does not raise the reduction threshold", w)
        else:
            cx.ob(s.decide(t.le(n1, q.schedule.next_reduce)) is True, "c33:reduce:keep",
                  "the reduction threshold is lowered without a reduction", w)
        steps = events(s, "step")
        cx.ob(len(steps) == 1, "c33:step", "not exactly one search step is made", w)
        for m in steps:
            v = View(cx, m.args[1], SEARCH)
            tr = v.prop.trail
            top = t.sel(D0, ONE, s.decide)
            if bts:
                ok = eqv(s, tr.steps, t.subarr(S0, ZERO, top)) \
                    and eqv(s, tr.decisions, t.subarr(D0, ZERO, ONE)) \
                    and eqv(s, v.prop.values, mk("bt", V0, top))
            else:
                ok = eqv(s, tr.steps, S0) and eqv(s, tr.decisions, D0) and eqv(s, v.prop.values, V0)
            cx.ob(ok, "c33:state", "scheduling changes the trail or the values in other ways than by "
                  "backtracking to the top level", w)
    for k in ("restart", "reduce"):
        cx.ob(k in seen, "c33:%s" % k, "there is no path that performs a %s" % k, w)
