"""Table sizes, by abstract interpretation of resizing and of Solver::add_clause.

The tables are found by a query over the types: every field reachable from the solver that is a map
keyed by variables or literals, or a heap of variables.  Resizing the solver state is analysed from
tables of arbitrary lengths not above the requested number of variables; afterwards each of them
must have exactly one entry per variable (two, where literals are the keys), and a table of the right
length keeps its entries.  Solver::add_clause is analysed with quantified facts over the clause: when
the clause is handed on, the state was resized to the recorded number of variables, all variables of
the clause are below it, and it has not become smaller.  A query establishes that nothing else changes
the recorded number or the length of a table."""
from .common import *
from ..state import State as St
from .. import prims
from . import scan, c09, c34
from .c09 import ADD
from .c32 import ADDC, start

RULE = "length of every table found by type after a resize; coverage of the clause before it is stored"
ASSUMES = ["the list methods and the vector map have their documented meaning",
           "resizing the heap gives it the requested length (C22)", "resizing the assignment gives "
           "it the requested length (C19)"]

RESIZE = "<%s as starlit::tracking::Resize>::resize"
VMAP = "starlit::util::vec_map::VecMap"
HEAP = "starlit::heap::MaxHeap"
PER = {"starlit::lit::Var": 1, "starlit::lit::Lit": 2}


def run(cx):
    tabs = tables(cx)
    cx.ob(len(tabs) >= 4, "c23:tables", "the tables of the solver are not recognised", ADDC)
    for p, f, ty in tabs:
        cx.note("table %s: %d per variable" % (".".join(p), f))
    grow(cx, tabs)
    add(cx, tabs)
    lengths(cx, tabs)


def tables(cx):
    """[(field path from the solver, entries per variable, type)]"""
    lib = cx.lib
    out = []

    def walk(ty, path, seen):
        k = lib.types.get(ty)
        if k is None or k["k"] != "adt" or not str(k.get("path", "")).startswith("starlit::"):
            return
        p = k["path"]
        if p == VMAP or p == HEAP:
            key = ty[ty.index("<") + 1:].split(",")[0].strip()
            if key in PER:
                out.append((tuple(path), PER[key], p))
            return
        if p in seen:
            return
        for v in k.get("variants", ())[:1]:
            for f in v["fields"]:
                walk(f["ty"], path + [f["name"]], seen | {p})
    for ty, k in lib.types.items():
        if k["k"] == "adt" and k.get("path") == SOLVER:
            walk(ty, [], frozenset())
            break
    return out


def table(cx, v, path, ty):
    """Term of a table, seen from a view of the solver."""
    for f in path:
        if not isinstance(v, View):
            break  # a structure of this one field
        v = getattr(v, f)
    return getattr(v, "t", v)


def size(cx, x, ty):
    """Number of entries of a table."""
    if ty == HEAP:
        while x.op in ("enq", "deq"):
            x = x.args[0]
        if x.op == "hrsz":
            return x.args[1]
        v = View(cx, x, HEAP).values
        return t.length(getattr(v, "t", v))
    while x.op in ("asn", "uns"):
        x = x.args[0]
    return x.args[1] if x.op == "rsz" else t.length(x)


def owner(cx, v, path):
    """The partial assignment is one value for the engine; its table is what C19 describes."""
    x = table(cx, v, path[:-1], None)
    return x if x.op in ("rsz", "asn", "uns") else None


def length_of(cx, v, path, ty):
    x = owner(cx, v, path)
    return size(cx, x, ty) if x is not None else size(cx, table(cx, v, path, ty), ty)


class Old(Pred):
    """Entry i is the one of the older table (the version)."""

    def check(self, st, a, i, v):
        return eqv(st, t.sel(a, i, st.decide), t.sel(v, i, st.decide))

    def persists(self, st, a, b):
        return a is b


class Keep(AllRule):
    def __init__(self, cx, tabs, st, isv):
        self.cx, self.tabs, self.isv = cx, tabs, isv
        self.preds = {"OLD": Old()}

    def loop_alls(self, eng, fr, h, head, phis, states, sigma):
        out = []
        v = View(self.cx, eng.rd(head, ("P", mk("sym", "a%d" % self.isv)), ()), STATE)
        v0 = View(self.cx, mk("pt", mk("sym", "a%d" % self.isv)), STATE)
        for p, f, ty in self.tabs:
            if ty == HEAP:
                continue
            x, o = table(self.cx, v, p, ty), table(self.cx, v0, p, ty)
            if x is not o:
                out.append(mk("all", x, ZERO, t.length(o), "OLD", o))
        return out


def grow(cx, tabs):
    path = RESIZE % STATE
    key = cx.key(path)
    w = cx.where(path)
    isv = cx.param(key, STATE)
    n = mk("sym", "a%d" % (1 - isv))
    tabs = [(p[1:] if p[0] == "state" else None, f, ty) for p, f, ty in tabs]
    for p, f, ty in tabs:
        cx.ob(p is not None, "c23:where", "a table is not part of the solver state", w)
    tabs = [x for x in tabs if x[0]]
    v0 = View(cx, mk("pt", mk("sym", "a%d" % isv)), STATE)
    st = St()
    olds = {}
    m = mk("sym", "known")
    st.assume(t.le(ZERO, m))
    st.assume(t.le(m, n))
    for p, f, ty in tabs:
        olds[p] = length_of(cx, v0, p, ty)
        st.assume(t.eq(olds[p], t.mul(I(f), m)))
    rule = Keep(cx, tabs, st, isv)
    st.preds = rule.preds
    for p, f, ty in tabs:
        if ty != HEAP:
            x = table(cx, v0, p, ty)
            st.add_all(x, ZERO, t.length(x), "OLD", x)
    e, a, outs = cx.run(key, st=st, rule=rule, pr=prims.allp())
    cx.ob(bool(outs), "c23:returns", "resizing does not return", w)
    for s, _ in outs:
        v = post(e, cx, s, a[isv], STATE)
        for p, f, ty in tabs:
            name = ".".join(p)
            cx.ob(s.decide(t.eq(length_of(cx, v, p, ty), t.mul(I(f), n))) is True,
                  "c23:size:" + name, "%s does not have %s entry per variable after resizing"
                  % (name, "one" if f == 1 else "%d" % f), w)
            if ty == HEAP or owner(cx, v, p) is not None:
                continue
            x, o = table(cx, v, p, ty), table(cx, v0, p, ty)
            cx.ob(x is o or s.decide_all(mk("all", x, ZERO, t.length(o), "OLD", o)) is True,
                  "c23:kept:" + name, "entries of %s are lost when it is resized" % name, w)


class Covered(Pred):
    """The variable of literal i is below the bound (the version)."""

    def check(self, st, a, i, v):
        return st.decide(t.lt(var(t.sel(a, i, st.decide)), v)) is True

    def persists(self, st, a, b):
        return st.decide(t.le(a, b)) is True


class Cover(AllRule):
    def __init__(self, lits):
        self.lits = lits
        self.preds = {"COVERED": Covered()}

    def loop_alls(self, eng, fr, h, head, phis, states, sigma):
        out = []
        ints = [ph for ph, _ in int_bounds(head, phis, states, sigma)]
        n = t.length(self.lits)
        for i in ints:
            for v in ints:
                if v is not i:
                    for b in (v, t.add(v, ONE)):
                        out.append(mk("all", self.lits, ZERO, i, "COVERED", b))
                        out.append(mk("all", self.lits, i, n, "COVERED", b))
        return out


def add(cx, tabs):
    key = cx.key(ADDC)
    w = cx.where(ADDC)
    isv, il = cx.param(key, SOLVER), cx.param(key, "[starlit::lit::Lit]")
    lits = mk("pt", mk("sym", "a%d" % il))
    pr = prims.allp()
    pr[BACKTRACK] = c09.backtrack_contract(cx)
    v0 = View(cx, mk("pt", mk("sym", "a%d" % isv)), SOLVER)
    n0 = v0.ctx.stats.formula.vars

    def resize(eng, st, c):
        b, p = eng.deref(st, c.args[0])
        eng.wr(st, b, p, eng.fresh(c), c.fr, c.span)
        event(st, "resize", c.args[1])
        return [(st, t.UNIT)]

    def stored(eng, st, c):
        sv = View(cx, eng.read(st, mk("sym", "a%d" % isv)), SOLVER)
        n = sv.ctx.stats.formula.vars
        event(st, "store")
        at_ = at(c.fr, c.span)
        D = eng.read(st, arg(c, "[starlit::lit::Lit]"))
        rs = events(st, "resize")
        ok = rs and eqv(st, rs[-1].args[1], n) or not rs and eqv(st, n, n0)
        cx.ob(ok, "c23:resized", "the tables do not have the recorded number of variables when a "
              "clause is stored", at_)
        cx.ob(st.decide(t.le(n0, n)) is True, "c23:shrink", "the number of variables can become "
              "smaller", at_)
        hi = const_len(st, t.length(D))
        hi = t.length(D) if hi is None else I(hi)
        cx.ob(st.decide_all(mk("all", D, ZERO, hi, "COVERED", n)) is True, "c23:covered",
              "a clause is stored although its variables are not all covered by the tables", at_)
        return hav_call(eng, st, c)
    pr[RESIZE % STATE] = resize
    pr[ADD] = stored
    st = start(cx, isv)
    rule = Cover(lits)
    st.preds = rule.preds
    e, a, outs = cx.run(key, st=st, rule=rule, pr=pr)
    cx.ob(any(events(s, "store") for s, _ in outs), "c23:stores", "Solver::add_clause stores no "
          "clause", w)
    for s, _ in outs:
        n = post(e, cx, s, a[isv], SOLVER).ctx.stats.formula.vars
        rs = events(s, "resize")
        if not events(s, "store"):
            ok = rs and eqv(s, rs[-1].args[1], n) or not rs and eqv(s, n, n0)
            cx.ob(ok, "c23:resized-after", "the tables do not have the recorded number of variables "
                  "after adding a clause", w)


def lengths(cx, tabs):
    """Nothing else changes the recorded number of variables or the length of a table."""
    cm = scan.callmap(cx.lib)
    fs = c34.FS
    for p in sorted(c34.writers(cx, fs, "vars")):
        bad = scan.only_from(cm, p, {ADDC})
        cx.ob(not bad, "c23:vars:" + p, "the number of variables is changed in %s, called by %s"
              % (p, ", ".join(sorted(bad))), p)
    for q in sorted(cm.get(RESIZE % STATE, ())):
        bad = scan.only_from(cm, q, {ADDC})
        cx.ob(not bad, "c23:resize:" + q, "the state is also resized by %s" % ", ".join(sorted(bad)), q)
