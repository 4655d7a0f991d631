"""Completeness of unit propagation, by abstract interpretation of the propagation loops.

propagate is analysed from an arbitrary state.  Whenever a literal is marked as processed: it was the
next one on the trail, all entries of the binary list of its negation are true (a quantified loop
fact), and the watch list of its negation was scanned to its end, where each entry was justified by a
deleted clause, a true literal of the clause, a moved watch, or a conflict; a conflict is reported and
stops the marking.  It finishes without a conflict only if every trail entry is processed.  Reported
conflicts are stored clauses all of whose literals are false.  No other function raises the number of
processed literals (query and analysis of each writer)."""
from .common import *
from .. import prims
from . import scan, unitprop

RULE = "binary and watch list scans complete and every entry justified before a literal counts"
ASSUMES = ["literals on the trail are true (C04)", "watch lists hold every clause (C06, C31)"]


def run(cx):
    unitprop.run(Only(cx, "c05"))
    writers(cx)


def writers(cx):
    """Only propagate raises `propagated`."""
    pi, _ = cx.lay.idx(TRAIL, "propagated", FTY[(TRAIL, "propagated")])
    todo = set()
    for k, b in scan.bodies(cx.lib):
        for pl, use, sp in scan.places(b):
            if use in ("write", "refmut") and any(
                    adt == TRAIL and i == pi for adt, i, last in scan.fields_of(cx.lib, b, pl)):
                todo.add((k, b.path))
    cx.ob(bool(todo), "c05:writers", "nothing writes the number of processed literals")
    cm = scan.callmap(cx.lib)
    for k, path in sorted(todo):
        bad = scan.only_from(cm, path, {PROPAGATE})
        if not bad:
            continue
        e, a, outs = cx.run(k, pr=prims.allp())
        ps = cx.params(k)
        ix = [i for i, p in enumerate(ps) if TRAIL in p or PROP in p]
        ok = bool(outs) and bool(ix)
        for s, ret in outs:
            for i in ix:
                if TRAIL in ps[i]:
                    x, y = pre(e, cx, a[i], TRAIL), post(e, cx, s, a[i], TRAIL)
                else:
                    x, y = pre(e, cx, a[i], PROP).trail, post(e, cx, s, a[i], PROP).trail
                ok = ok and s.decide(t.le(y.propagated, x.propagated)) is True
        if not ix and path.endswith("::default"):
            ok = True
        cx.ob(ok, "c05:writer:" + path, "%s may mark literals as processed outside of propagation"
              % path, path)
