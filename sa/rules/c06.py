"""Watches of long clauses during propagation, by abstract interpretation of the watch list scan.

The scan of a watch list is analysed from an arbitrary state in which every entry belongs to a deleted
clause or one with the list's literal among its first two literals.  At the end of each entry's
examination the state is compared with the one at its beginning: an entry is gone only with a deleted
clause or with exactly one new entry, in the list of a literal that was not false and that has been
exchanged with the watched literal; an entry that stays keeps its clause, whose first two literals are
the same two, and names a literal of the clause as blocking literal.  Nothing else is written, and on
every path the scanned list is put back for its literal.  The remembered search position stays inside
of the clause.  Queries establish that nothing outside of propagation moves entries or literals: each
function with write access to clause literals or to a watch list is analysed from an arbitrary
state."""
from .common import *
from .. import prims
from . import scan, unitprop

RULE = "watch list entries and watched literals at the end of every examination"
ASSUMES = ["new clauses are watched by their first two literals (C31)",
           "references are updated by garbage collection (C14)", "MutScan (C21)"]

W = "starlit::prop::watch::Watches::"
KNOWN = {W + "watch_clause": "C31", W + "update_clause_references": "C14", W + "clear": "C31"}


def run(cx):
    unitprop.run(Only(cx, "c06"))
    lists(cx)
    literals(cx)
    positions(cx)


def lists(cx):
    """Who writes watch lists."""
    bi, _ = cx.lay.idx(WATCHES, "by_lit", FTY[(WATCHES, "by_lit")])
    cm = scan.callmap(cx.lib)
    seen = set()
    for k, b in scan.bodies(cx.lib):
        for pl, use, sp in scan.places(b):
            if use in ("write", "refmut") and any(
                    adt == WATCHES and i == bi for adt, i, last in scan.fields_of(cx.lib, b, pl)):
                seen.add((k, scan.base(b.path)))
    cx.ob(bool(seen), "c06:writers", "nothing writes watch lists")
    for k, p in sorted(seen):
        if p in KNOWN or p.endswith("::resize") or p.endswith("::default"):
            cx.ob(True, "c06:writer:" + p, "")
            continue
        bad = scan.only_from(cm, p, {PROPAGATE} | set(KNOWN))
        if not bad or all(unchanged_lists(cx, x) for x in bad):
            cx.ob(True, "c06:writer:" + p, "")
            continue
        cx.ob(False, "c06:writer:" + p, "%s changes watch lists outside of propagation (through %s)"
              % (p, ", ".join(sorted(bad))), p)
    p = W + "clear"
    bad = scan.only_from(cm, p, {"starlit::prop::watch::enable_watch_lists"})
    cx.ob(not bad, "c06:clear", "watch lists are cleared without being disabled (by %s)"
          % ", ".join(sorted(bad)), p)


def unchanged_lists(cx, path):
    ks = cx.lib.find(path)
    if not ks:
        return False
    ps = cx.params(ks[0])
    ix = [i for i, p in enumerate(ps) if PROP in p or WATCHES in p]
    if len(ix) != 1:
        return False
    e, a, outs = cx.run(ks[0])
    i = ix[0]
    adt = PROP if PROP in ps[i] else WATCHES
    for s, r in outs:
        x, y = pre(e, cx, a[i], adt), post(e, cx, s, a[i], adt)
        if adt == PROP:
            x, y = x.watches, y.watches
        if y.by_lit is not x.by_lit:
            return False
    return bool(outs)


def lits_same(st, old, new):
    """Storage `new` is `old` up to headers."""
    n = 0
    while new is not old and n < 40:
        n += 1
        if new.op != "store":
            return False
        x = t.fld(new.args[2], 1, 2)
        y = t.fld(t.sel(new.args[0], new.args[1], st.decide), 1, 2)
        if x is not y:
            return False
        new = new.args[0]
    return new is old


WRITE = ("lits_mut", "header_and_lits_mut")


def literals(cx):
    """Who gets write access to the literals of stored clauses."""
    cm = scan.callmap(cx.lib)
    n = 0
    for name in WRITE:
        path = prims.AR + name
        for p in sorted(cm.get(path, ())):
            if p.startswith("starlit::clause_arena"):
                continue
            n += 1
            if not scan.only_from(cm, p, {PROPAGATE}):
                continue
            ks = cx.lib.find(p)
            ok = False
            for k in ks[:1]:
                ps = cx.params(k)
                pr = prims.allp()
                pr["starlit::glue::compute_glue"] = lambda eng, st, c: [(st, eng.fresh(c))]
                for adt in (PROP, "starlit::clause_arena::ClauseArena"):
                    ix = [i for i, x in enumerate(ps) if adt in x and x.startswith("&mut")]
                    if len(ix) != 1:
                        continue
                    e, a, outs = cx.run(k, pr=pr)
                    ok = bool(outs)
                    for s, r in outs:
                        if adt == PROP:
                            x, y = pre(e, cx, a[ix[0]], PROP).long, \
                                post(e, cx, s, a[ix[0]], PROP).long
                        else:
                            x = mk("pt", a[ix[0]])
                            y = e.getbase(s, P(a[ix[0]]))
                        ok = ok and lits_same(s, x, y)
                    break
            cx.ob(ok, "c06:literals:" + p, "%s may change the literals of a stored clause outside of "
                  "propagation" % p, p)
    cx.ob(n > 0, "c06:literals", "no function has write access to literals of stored clauses")


def positions(cx):
    """The remembered search position of new and shrunk clauses."""
    n = 0
    for path in ("starlit::prop::long::LongHeader::new_input_clause",
                 "starlit::prop::long::LongHeader::new_learned_clause"):
        e, a, outs = cx.run(path)
        for s, r in outs:
            n += 1
            cx.ob(prims.hget(e, s, "search_pos", r) is ZERO, "c06:position:new", "the search in a "
                  "new clause does not start with its third literal", path)
    key = [k for k, b in scan.bodies(cx.lib) if b.path.startswith("<" + prims.LH[:-2])
           and b.path.endswith("::shrink_clause")]
    for k in key:
        ps = cx.params(k)
        ih = [i for i, p in enumerate(ps) if "LongHeader" in p][0]
        io, inew = [i for i, p in enumerate(ps) if p == "usize"]
        e, a, outs = cx.run(k)
        for s, r in outs:
            p0 = prims.hget(e, s, "search_pos", mk("pt", a[ih]))
            if not (s.assume(t.le(t.add(p0, I(3)), a[io])) and s.assume(t.le(I(3), a[inew]))
                    and s.assume(t.le(a[inew], a[io]))):
                continue
            n += 1
            p1 = prims.hget(e, s, "search_pos", e.getbase(s, P(a[ih])))
            cx.ob(s.decide(t.le(t.add(p1, I(3)), a[inew])) is True, "c06:position:shrink",
                  "the search position of a clause that was shrunk may be outside of it",
                  cx.where(k))
    cx.ob(n > 2, "c06:position:none", "no function creates or shrinks clauses")
