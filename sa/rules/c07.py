"""Reasons and levels recorded on the trail, by abstract interpretation of every assigning function.

In the analysis of propagation (from an arbitrary state, loops by fixpoint) each assignment must name
a clause that is unit at that moment: a binary reason is a false literal whose binary list contains
the implied literal; a long reason is a stored clause whose first literal is the implied one and whose
other literals are all known to be false (a quantified loop fact over the search).  The level is the
number of open decisions.  A clause whose first literal is true is never reordered, so a reason keeps
its literal in front.  Decisions are analysed to open exactly one level that starts at their own trail
entry; units are recorded without reason at level 0, learned clauses as in C36; and Reason::lits yields
exactly the false literals.  A call graph query shows that nothing else assigns."""
from .common import *
from .. import prims
from ..state import State
from . import scan, unitprop, c36

RULE = "step passed to every assignment is justified by a clause that is unit at that moment"
ASSUMES = ["each assignment appends the given step (C04)", "watched literals are in front (C06)",
           "references are updated by garbage collection (C14)"]

VERBATIM = "starlit::prop::add_clause_verbatim"
DECIDE = "starlit::prop::trail::assign_decision"
LITS = "starlit::prop::trail::Reason::lits"


def run(cx):
    unitprop.run(Only(cx, "c07"))
    c36.run(Rename(cx))
    callers(cx)
    unit(cx)
    decision(cx)
    reason_lits(cx)


class Rename(Only):
    """The obligations of C36 about assigned literals."""

    def __init__(self, cx):
        Only.__init__(self, cx, "c36:assign")

    def ob(self, ok, key, msg, where=None):
        if key.startswith("c36:assign"):
            return self._cx.ob(ok, "c07:learned" + key[10:], msg, where)
        return ok


def callers(cx):
    bad = scan.only_from(scan.callmap(cx.lib), ASSIGN_RAW, {PROPAGATE, ANALYZE, VERBATIM, DECIDE})
    cx.ob(not bad, "c07:callers", "%s assigns literals besides propagation, decisions, units and "
          "learned clauses" % ", ".join(sorted(bad)), ASSIGN_RAW)


def recorded(cx):
    def f(eng, st, c):
        step = [x for x, ty in zip(c.args, c.argtys) if ty == STEP]
        v = View(cx, eng.read(st, arg(c, TRAIL)), TRAIL)
        event(st, "assign", step[0], v.decisions, v.steps)
        return hav_call(eng, st, c)
    return f


def reason_is(cx, r, name):
    return r.op == "en" and cx.lay.adt(REASON)[1]["variants"][r.args[0]]["name"] == name


def unit(cx):
    w = cx.where(VERBATIM)
    pr = prims.allp()
    pr[ASSIGN_RAW] = recorded(cx)
    key = cx.key(VERBATIM)
    il = cx.param(key, "[starlit::lit::Lit]")
    e, a, outs = cx.run(key, pr=pr)
    n = 0
    for s, r in outs:
        lits = mk("pt", a[il])
        for m in events(s, "assign"):
            n += 1
            step = View(cx, m.args[1], STEP)
            cx.ob(s.decide(t.eq(t.length(lits), ONE)) is True and
                  eqv(s, step.assigned_lit, t.sel(lits, ZERO, s.decide)), "c07:unit:lit",
                  "adding a clause assigns something else than the literal of a unit clause", w)
            cx.ob(reason_is(cx, step.reason, "Unit") and eqv(s, step.decision_level, ZERO),
                  "c07:unit", "a unit clause is not recorded without antecedents at the top level",
                  w)
    cx.ob(n > 0, "c07:unit:none", "adding a unit clause assigns nothing", w)


def decision(cx):
    w = cx.where(DECIDE)
    pr = prims.allp()
    pr[ASSIGN_RAW] = recorded(cx)
    key = cx.key(DECIDE)
    ip, il = cx.param(key, PROP), cx.param(key, "starlit::lit::Lit")
    e, a, outs = cx.run(key, pr=pr)
    cx.ob(bool(outs), "c07:decision:returns", "no decision can be made", w)
    for s, r in outs:
        ev = events(s, "assign")
        if not cx.ob(len(ev) == 1, "c07:decision:once", "a decision does not assign one literal",
                     w):
            continue
        step = View(cx, ev[0].args[1], STEP)
        D0 = pre(e, cx, a[ip], PROP).trail.decisions
        D1, S = ev[0].args[2], ev[0].args[3]
        cx.ob(D1.op == "push" and D1.args[0] is D0 and eqv(s, D1.args[1], t.length(S)),
              "c07:decision:level", "a decision does not open one level that starts at its own "
              "trail entry", w)
        cx.ob(eqv(s, step.decision_level, t.length(D0)), "c07:decision:step", "a decision is not "
              "recorded at the level it opens", w)
        cx.ob(reason_is(cx, step.reason, "Decision"), "c07:decision:reason", "a decision is "
              "recorded with a reason", w)
        cx.ob(eqv(s, step.assigned_lit, a[il]), "c07:decision:lit", "another literal than the "
              "decided one is assigned", w)


def reason_lits(cx):
    """What analysis sees of a reason."""
    w = cx.where(LITS)
    key = cx.key(LITS)
    ps = cx.params(key)
    ir = [i for i, p in enumerate(ps) if REASON in p][0]
    ip = cx.param(key, PROP)
    vs = cx.lay.adt(REASON)[1]["variants"]
    for k, v in enumerate(vs):
        st = State()
        a = [mk("sym", "a%d" % i) for i in range(len(ps))]
        x = mk("sym", "payload")
        st.mem[P(a[ir])] = t.en(k, x) if v["fields"] else t.en(k)
        e, _, outs = cx.run(key, args=dict(enumerate(a)), st=st, pr=prims.allp())
        cx.ob(bool(outs), "c07:lits:returns", "the literals of a reason cannot be listed", w)
        for s, r in outs:
            L = e.read(s, r)
            n = t.length(L)
            if v["name"] in ("Decision", "Unit"):
                ok = eqv(s, n, ZERO)
            elif v["name"] == "Binary":
                ok = eqv(s, n, ONE) and eqv(s, t.sel(L, ZERO, s.decide), x)
            else:
                c = t.fld(t.sel(pre(e, cx, a[ip], PROP).long, x, s.decide), 1, 2)
                if not s.assume(t.le(ONE, t.length(c))):
                    continue
                i = mk("sym", "some.index")
                s.assume(t.lt(i, n))
                ok = eqv(s, n, t.sub(t.length(c), ONE)) and \
                    eqv(s, t.sel(L, i, s.decide), t.sel(c, t.add(i, ONE), s.decide))
            cx.ob(ok, "c07:lits:" + v["name"], "the literals listed for a %s reason are not the "
                  "false literals of the implying clause" % v["name"], w)
