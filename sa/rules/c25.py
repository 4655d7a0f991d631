"""Output and exit status of the command line tool, by abstract interpretation of main.

main is analysed with the solver, the parser and files as contracts and with an automaton that reads
everything printed.  On every abstract path that ends the process the verdict line, the exit status
and the result of solving agree.  For a satisfiable formula every value that Solver::value reports is
printed exactly once, on lines of values, with the polarity of the value: each loop iteration is
shown to add exactly the values it asked for to the output or to the text collected so far, which is
printed before it is dropped; the variables asked for cover all variables of the formula.
Solver::value itself must report exactly the assignment of the variables of the formula."""
from .common import *
from .. import prims
from . import cli

RULE = "automaton of printed text, results and exit status on every abstract path of main"
ASSUMES = ["displaying a literal prints its DIMACS number (C18)", "writing to standard output works",
           "the variable count is the one of C34"]

VALUE = "starlit::solver::Solver::<'a>::value"


def run(cx):
    e, mon = cli.run(cx, "c25")
    cx.ob(mon.finals > 0 and mon.printed > 0, "c25:ends", "main prints nothing or never ends",
          cli.MAIN)
    # the value of a literal
    key = cx.key(VALUE)
    w = cx.where(VALUE)
    isv = cx.param(key, SOLVER)
    il = cx.param(key, "starlit::lit::Lit")
    e, a, outs = cx.run(key, pr=prims.allp())
    sv = View(cx, mk("pt", a[isv]), SOLVER)
    n = sv.ctx.stats.formula.vars
    V = sv.state.search.prop.values
    l = a[il]
    for s, r in outs:
        for s2, known in e.fork(s, t.lt(var(l), n)):
            if not known:
                cx.ob(disc(s2, r) == 0, "c25:value-range", "a value is reported for a variable that "
                      "is not part of the formula", w)
                continue
            for s3, tv in e.fork(s2, mk("tv", V, l)):
                if tv:
                    ok = disc(s3, r) == 1 and s3.decide(t.vfld(r, 1, 0)) is True
                    cx.ob(ok, "c25:value-true", "a true literal is not reported as true", w)
                    continue
                for s4, fv in e.fork(s3, mk("tv", V, neg(l))):
                    if fv:
                        ok = disc(s4, r) == 1 and s4.decide(t.vfld(r, 1, 0)) is False
                        cx.ob(ok, "c25:value-false", "a false literal is not reported as false", w)
                    else:
                        cx.ob(disc(s4, r) == 0, "c25:value-none", "an unassigned literal is "
                              "reported to have a value", w)


def disc(st, r):
    if r.op == "en":
        return r.args[0]
    for i in (0, 1):
        if st.decide(t.eq(t.disc(r), I(i))) is True:
            return i
    return None
