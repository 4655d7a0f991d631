"""Bounded recursion, over the call graph of the whole program.

Cycles are searched in the graph of calls, mentions of functions and closures, and calls through
traits to every implementation.  Each function on a cycle is interpreted: every call that stays on the
cycle must pass on a counter that never goes back, that grows (or shrinks) at some call of every
cycle, and that is compared with a constant at some call of every cycle.  Structures that own further
structures of their own kind are cycles of their destructors."""
from itertools import product
from .common import *
from ..state import State as St
from .. import prims
from . import scan

RULE = "cycles of the call graph and of owned types; a bounded counter on every cycle"
ASSUMES = ["library functions recurse at most logarithmically", "calls of the traversal do not call "
           "back into the program but through closures given to them"]
BOTH_PROFILES = False

MOST = 4096


def graph(cx):
    bs, crate = {}, {}
    for c in (cx.lib, cx.cli):
        for k, b in scan.bodies(c):
            if k not in bs:
                bs[k], crate[k] = b, c
    g = {k: set() for k in bs}
    methods = {}
    paths = {}
    for k, b in bs.items():
        paths.setdefault(b.path, set()).add(k)
        if b.path.startswith("<") and " as " in b.path:
            tr = b.path.split(" as ", 1)[1]
            tr = tr.rsplit(">::", 1)
            if len(tr) == 2:
                methods.setdefault((tr[0].split("<")[0], tr[1]), set()).add(k)
    for k, b in bs.items():
        def to(rec):
            q = rec.get("key")
            if q in bs:
                return {q}
            p = scan.callee(rec)
            if p in paths:
                return paths[p]
            tr = p.rsplit("::", 1)
            if len(tr) == 2 and (tr[0].split("<")[0], tr[1]) in methods:
                return methods[tr[0].split("<")[0], tr[1]]
            if p.startswith("<") and " as " in p:
                tr = p.split(" as ", 1)[1].rsplit(">::", 1)
                if len(tr) == 2:
                    return methods.get((tr[0].split("<")[0], tr[1]), set())
            return set()
        for rec, tm, sp, bi in scan.calls(b):
            if rec and scan.is_local(b):
                if str(rec.get("crate", "")).startswith("starlit"):
                    g[k] |= to(rec)
                elif rec.get("key") in bs:
                    g[k].add(rec["key"])
        for rec in scan.fnvalues(b):
            g[k] |= to(rec)
        for bl in b.blocks:
            for s in bl["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure" \
                        and s[2][1][2] in bs:
                    g[k].add(s[2][1][2])
    return bs, crate, g


def components(g):
    """Strongly connected components with a cycle."""
    idx, low, on, st, out = {}, {}, set(), [], []
    for root in g:
        if root in idx:
            continue
        work = [(root, iter(sorted(g[root])))]
        idx[root] = low[root] = len(idx)
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(g[w]))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in g[v]:
                        out.append(comp)
    return out


def run(cx):
    bs, crate, g = graph(cx)
    cx.note("%d functions, %d call edges" % (len(g), sum(len(x) for x in g.values())))
    cx.ob(len(g) > 100, "c29:graph", "the call graph is not recognised")
    comps = components(g)
    cx.note("cycles: %s" % ("; ".join(", ".join(sorted(bs[k].path for k in c)) for c in comps)
                            or "none"))
    for comp in comps:
        bounded(cx, bs, crate, *folded(bs, g, set(comp)))
    owned(cx)


def folded(bs, g, comp):
    """Closures on a cycle count as part of the function on the cycle that creates them."""
    g = {k: set(v) for k, v in g.items()}
    inner = {}
    for k in sorted(comp):
        if bs[k].kind == "Closure":
            owner = bs[k].path
            while owner.endswith("}") and "::{closure#" in owner:
                owner = owner.rsplit("::{closure#", 1)[0]
            own = [x for x in comp if bs[x].path == owner]
            if len(own) == 1:
                inner[k] = own[0]
    for o in comp - set(inner):
        new = set()
        for k in [o] + [q for q in inner if inner[q] == o]:
            new |= {inner.get(x, x) for x in g[k] & comp if inner.get(x) != o}
        g[o] = (g[o] - comp) | new
    return g, comp - set(inner), inner


def ints(b):
    return [i for i in range(b.argc) if b.locals[i + 1][0] in (
        "usize", "u8", "u16", "u32", "u64", "u128")]


def bounded(cx, bs, crate, g, comp, inner):
    names = ", ".join(sorted({bs[k].path for k in comp}))
    where = sorted(bs[k].path for k in comp)[0]
    edges = []
    for k in sorted(comp):
        edges += sites(cx, bs, crate, g, comp, k,
                       [q for q in inner if inner[q] == k])
    cands = [[(k, i) for i in ints(bs[k])] for k in sorted(comp)]
    ok = False
    for pick in product(*cands):
        p = dict(pick)
        if rises(bs, comp, edges, p) or falls(cx, bs, crate, comp, edges, p):
            ok = True
            break
    cx.ob(ok, "c29:bounded:" + names, "the depth of the recursion of %s is not bounded by a constant"
          % names, where)
    for x in edges:
        cx.ob(True, "c29:call", "", where)


def acyclic(comp, edges, drop):
    g = {k: set() for k in comp}
    for e in edges:
        if not drop(e):
            g[e[0]].add(e[1])
    return not components(g)


def mono(e, p, up):
    """(never goes back, makes progress, is bounded) of a call."""
    k, k2, args, st = e
    old, new = mk("sym", "a%d" % p[k]), args[p[k2]] if args is not None else None
    if new is None:
        return False, False, False
    a, b = (old, new) if up else (new, old)
    weak = st.decide(t.le(a, b)) is True
    strict = st.decide(t.lt(a, b)) is True
    if up:
        lim = st.decide(t.le(new, I(MOST))) is True
    else:
        lim = st.decide(t.le(ZERO, new)) is True
    return weak, strict, lim


def rises(bs, comp, edges, p):
    ms = {id(e): mono(e, p, True) for e in edges}
    return all(m[0] for m in ms.values()) and acyclic(comp, edges, lambda e: ms[id(e)][1]) \
        and acyclic(comp, edges, lambda e: ms[id(e)][2])


def falls(cx, bs, crate, comp, edges, p):
    ms = {id(e): mono(e, p, False) for e in edges}
    if not all(m[0] and m[2] for m in ms.values()) or \
            not acyclic(comp, edges, lambda e: ms[id(e)][1]):
        return False
    # every call from outside starts with a constant
    for k, b in bs.items():
        if k in comp:
            continue
        for rec, tm, sp, bi in scan.calls(b):
            if rec is None or rec.get("key") not in comp:
                continue
            o = tm[2][p[rec["key"]]]
            v = const(b, o)
            if v is None or v > MOST:
                return False
    return True


def const(b, o, depth=4):
    if o[0] == "k":
        try:
            return int(o[1]["val"]["int"])
        except (KeyError, TypeError):
            return None
    if depth and len(o[1]) == 1:
        ws = [s[2] for bl in b.blocks for s in bl["s"] if s[0] == "=" and s[1] == o[1]]
        if len(ws) == 1 and ws[0][0] == "use":
            return const(b, ws[0][1], depth - 1)
    return None


def sites(cx, bs, crate, g, comp, k, inner):
    """Calls of a function that stay on the cycle: [(caller, callee, arguments, state)]."""
    b = bs[k]
    out, hit = [], set()
    pr = prims.allp()
    paths = {bs[x].path: x for x in comp}

    def again(eng, st, c):
        out.append((k, paths[c.path], list(c.args), st.copy()))
        hit.add((c.fr.key, c.block))
        return hav_call(eng, st, c)
    for p in paths:
        pr[p] = again
    static = {}
    for q in [k] + inner:
        for rec, tm, sp, bi in scan.calls(bs[q]):
            if rec and scan.callee(rec) in paths:
                static[q, bi] = paths[scan.callee(rec)]
    if not static or any(bs[x].kind == "Closure" for x in comp):
        # through a function value or a trait
        return [(k, x, None, None) for x in g[k] & comp]
    e = cx.engine(Rule(), pr, crates=[crate[k]] if crate[k] is cx.lib else [cx.cli, cx.lib])
    st = St()
    for i in ints(b):
        st.assume(t.le(ZERO, mk("sym", "a%d" % i)))
    e.inline_top = k
    e.analyse(k, [mk("sym", "a%d" % i) for i in range(b.argc)], st)
    e.deadline = None
    # calls of a closure that the analysis has not seen, calls through other values
    out += [(k, x, None, None) for (q, bi), x in static.items() if q != k and (q, bi) not in hit]
    out += [(k, x, None, None) for x in g[k] & comp if x not in static.values()]
    return out


def owned(cx):
    """No structure owns structures of its own kind (its destructor would recurse)."""
    n = 0
    for c in (cx.lib, cx.cli):
        g = {}
        for ty, d in c.types.items():
            if d["k"] == "adt":
                parts = [f["ty"] for v in d.get("variants", ()) for f in v["fields"]] \
                    if d.get("local") else [x for x in d.get("args", ()) if isinstance(x, str)]
            elif d["k"] in ("slice", "array"):
                parts = [d.get("ty")]
            elif d["k"] == "tuple":
                parts = list(d.get("tys", ()))
            else:
                parts = []
            g[ty] = {p for p in parts if p in c.types and not p.startswith(("&", "*"))}
        n += len(g)
        for comp in components(g):
            loc = sorted(x for x in comp if c.types[x].get("local"))
            if loc:
                cx.ob(False, "c29:owned:" + loc[0], "%s owns further values of its own type; "
                      "destroying it recurses without a bound" % loc[0], loc[0])
    cx.note("%d types" % n)
    cx.ob(n > 50, "c29:types", "the types of the program are not recognised")
