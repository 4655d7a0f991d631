"""Proof errors, by abstract interpretation of main, Solver::close_proof and the proof writers.

On every abstract path of main a verdict is printed, and the process ends with a verdict status, only
after close_proof succeeded following the last operation that can add proof steps.  close_proof, from
an arbitrary solver state, flushes an active writer exactly once and returns the very result, and
leaves no writer behind.  The flush of each writer first writes out what is buffered and then returns
the result of checking for deferred errors; a query shows that nobody else consumes such errors."""
from .common import *
from .. import prims
from . import cli, scan, c25

RULE = "closing precedes every verdict; flush results are returned unchanged by every function"
ASSUMES = ["DeferredWriter keeps the first error until it is checked (flussab)"]

CLOSE = "starlit::solver::Solver::<'a>::close_proof"
FLUSH = "starlit::proof::Proof::flush"
DW = "flussab::DeferredWriter::<'a>::"


def result(eng, st, c, name):
    s2 = st.copy()
    event(st, name, ZERO)
    event(s2, name, ONE)
    return [(st, t.en(0, t.UNIT)), (s2, t.en(1, eng.fresh(c, "err")))]


def run(cx):
    e, mon = cli.run(cx, "c12")
    cx.ob(mon.finals > 0, "c12:ends", "main never ends", cli.MAIN)
    # Solver::close_proof
    key = cx.key(CLOSE)
    w = cx.where(CLOSE)
    isv = cx.param(key, SOLVER)
    pr = prims.allp()
    pr[FLUSH] = lambda eng, st, c: result(eng, st, c, "flush")
    e, a, outs = cx.run(key, pr=pr)
    old = View(cx, mk("pt", a[isv]), SOLVER).ctx.proof
    cx.ob(bool(outs), "c12:close", "close_proof never returns", w)
    n = 0
    for s, r in outs:
        for i in (0, 1):
            s2 = s.copy()
            if not s2.assume(t.eq(t.disc(old), I(i))):
                continue
            es = events(s2, "flush")
            new = post(e, cx, s2, a[isv], SOLVER).ctx.proof
            cx.ob(c25.disc(s2, new) == 0, "c12:left", "a closed proof writer stays active", w)
            if i == 0:
                cx.ob(c25.disc(s2, r) == 0 and not es, "c12:none", "closing without a proof is an "
                      "error", w)
                continue
            n += 1
            cx.ob(bool(es), "c12:flush", "the proof is not flushed when it is closed", w)
            bad = any(m.args[1] is ONE for m in es)
            cx.ob(c25.disc(s2, r) == (1 if bad else 0), "c12:swallowed", "the result of flushing "
                  "the proof is not what close_proof returns", w)
    cx.ob(n > 0, "c12:close-proof", "close_proof ignores the proof", w)
    # the writers
    writers = [k for k, b in scan.bodies(cx.lib)
               if b.path.endswith("as starlit::proof::Proof>::flush")]
    cx.ob(len(writers) >= 2, "c12:writers", "no proof writers found")
    for k in writers:
        writer(cx, k)
    # who consumes errors
    for c in (cx.lib, cx.cli):
        for k, b in scan.bodies(c):
            for rec, term, span, blk in scan.calls(b):
                p = scan.callee(rec) or ""
                if p in (DW + "check_io_error", DW + "into_inner", DW + "take_io_error") or \
                        p.startswith("<flussab::DeferredWriter") and "std::io::Write>" in p:
                    cx.ob(k in writers, "c12:consumed", "an error of the proof writer is consumed "
                          "outside of flushing (%s)" % b.path,
                          "%s at %s" % (b.path, scan.line(span)))


def writer(cx, key):
    w = cx.lib.body(key).path
    pr = prims.allp()

    def flush_defer(eng, st, c):
        event(st, "out", c.args[0])
        return [(st, t.UNIT)]

    def check(eng, st, c):
        cx.ob(not events(st, "check"), "c12:check-once", "errors are checked twice", at(c.fr, c.span))
        return result(eng, st, c, "check")

    def both(eng, st, c):
        event(st, "out", c.args[0])
        return check(eng, st, c)
    pr[DW + "flush_defer_err"] = flush_defer
    pr[DW + "check_io_error"] = check
    pr["<flussab::DeferredWriter<'a> as std::io::Write>::flush"] = both
    pr["<flussab::DeferredWriter<'_> as std::io::Write>::flush"] = both
    e, a, outs = cx.run(key, pr=pr)
    cx.ob(bool(outs), "c12:writer-returns", "flush never returns", w)
    for s, r in outs:
        es = [m.args[0] for m in events(s)]
        cx.ob("out" in es, "c12:buffered", "flush leaves steps in the buffer", w)
        cx.ob("check" in es, "c12:unchecked", "flush does not check for errors", w)
        if "check" in es:
            cx.ob("out" in es[:es.index("check")] and "out" not in es[es.index("check"):],
                  "c12:order", "errors are checked before the last step is written", w)
            bad = [m for m in events(s, "check")][-1].args[1] is ONE
            cx.ob(c25.disc(s, r) == (1 if bad else 0), "c12:dropped", "an error is not returned", w)
