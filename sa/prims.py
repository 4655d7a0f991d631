"""Contracts of the lower layers.

The analyses of the search code do not look into the storage layers again: partial assignment,
clause storage, headers, list scan and heap are described by the contracts below.  Each contract is
the statement of another property (C15, C16, C19 to C22, C37, C38), whose own check compares it with
the implementation.
"""
from . import terms as t
from .terms import I, mk, ZERO, ONE, TRUE, FALSE, UNIT, VNIL

NONE = t.en(0)


def some(x):
    return t.en(1, x)


# ------------------------------------------------------------ logging, reports, proofs

def unit(eng, st, c):
    return [(st, UNIT)]


def freshv(eng, st, c):
    v = eng.fresh(c)
    if eng.tinfo(c.destty)[0] == "enum":
        eng.disc_types[t.disc(v)] = eng.tinfo(c.destty)[2]
    return [(st, v)]


BASE = {
    "starlit::log::Logger::log": unit,
    "starlit::log::Logger::time": freshv,
    "starlit::log::Logger::set_log_level": unit,
    "starlit::log::Logger::log_source_locations": unit,
    "starlit::report::report": unit,
    "starlit::proof::Proof::add_clause": unit,
    "starlit::proof::Proof::delete_clause": unit,
    "starlit::proof::Proof::flush": freshv,
}


# ------------------------------------------------------------ partial assignment (C19)

PA = "starlit::partial_assignment::PartialAssignment::"


def neg(c):
    return t.bxor(c, ONE)


def pa_assign(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    eng.wr(st, b, p, mk("asg", eng.rd(st, b, p), c.args[1]), c.fr, c.span)
    return [(st, UNIT)]


def pa_unassign(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    eng.wr(st, b, p, mk("uns", eng.rd(st, b, p), c.args[1]), c.fr, c.span)
    return [(st, UNIT)]


def pa_true(eng, st, c):
    return [(st, mk("tv", eng.read(st, c.args[0]), c.args[1]))]


def pa_false(eng, st, c):
    return [(st, mk("tv", eng.read(st, c.args[0]), neg(c.args[1])))]


def pa_assigned(eng, st, c):
    return [(st, mk("as", eng.read(st, c.args[0]), c.args[1]))]


def pa_value(eng, st, c):
    v = eng.read(st, c.args[0])
    out = []
    for s, b in eng.fork(st, mk("tv", v, c.args[1])):
        if b:
            out.append((s, some(TRUE)))
            continue
        for s2, b2 in eng.fork(s, mk("tv", v, neg(c.args[1]))):
            if b2:
                out.append((s2, some(FALSE)))
            elif s2.assume(mk("as", v, t.shr(c.args[1], ONE)), False):
                out.append((s2, NONE))
    return out


def pa_resize(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    eng.wr(st, b, p, mk("rsz", eng.rd(st, b, p), c.args[1]), c.fr, c.span)
    return [(st, UNIT)]


ASSIGN = {
    PA + "assign": pa_assign,
    PA + "unassign": pa_unassign,
    PA + "is_true": pa_true,
    PA + "is_false": pa_false,
    PA + "is_assigned": pa_assigned,
    PA + "value": pa_value,
    "<starlit::partial_assignment::PartialAssignment as starlit::tracking::Resize>::resize":
        pa_resize,
}


# ------------------------------------------------------------ clause storage (C15, C16, C37, C38)
#
# The storage is a map from references to (header, literals).

AR = "starlit::clause_arena::ClauseArena::<Header>::"


def clause_ref(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    return b, p + (("x", c.args[1]),)


def ar_lits(eng, st, c):
    b, p = clause_ref(eng, st, c)
    return [(st, eng.ref(b, p + (("f", 1, 2),)))]


def ar_header(eng, st, c):
    b, p = clause_ref(eng, st, c)
    return [(st, eng.ref(b, p + (("f", 0, 2),)))]


def ar_both(eng, st, c):
    b, p = clause_ref(eng, st, c)
    return [(st, t.st(eng.ref(b, p + (("f", 0, 2),)), eng.ref(b, p + (("f", 1, 2),))))]


def ar_len(eng, st, c):
    b, p = clause_ref(eng, st, c)
    return [(st, t.length(eng.rd(st, b, p + (("f", 1, 2),))))]


def ar_add(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    lits = eng.read(st, c.args[2])
    if not st.assume(t.lt(ZERO, t.length(lits))):
        return []
    err = st.copy()
    new = eng.fresh(c, "clause")
    eng.wr(st, b, p + (("x", new),), t.st(c.args[1], lits), c.fr, c.span)
    return [(st, t.en(0, new)), (err, t.en(1, UNIT))]


def ar_delete(eng, st, c):
    b, p = clause_ref(eng, st, c)
    eng.wr(st, b, p + (("f", 1, 2),), VNIL, c.fr, c.span)
    return [(st, UNIT)]


def ar_shrink(eng, st, c):
    b, p = clause_ref(eng, st, c)
    lits = eng.rd(st, b, p + (("f", 1, 2),))
    if not st.assume(t.le(c.args[2], t.length(lits))) or not st.assume(t.lt(ZERO, c.args[2])):
        return []
    eng.wr(st, b, p + (("f", 1, 2),), t.subarr(lits, ZERO, c.args[2]), c.fr, c.span)
    eng.wr(st, b, p + (("f", 0, 2),), eng.fresh(c, "hdr"), c.fr, c.span)
    return [(st, UNIT)]


def ar_next(eng, st, c):
    b, p = eng.deref(st, c.args[1])
    prev = eng.rd(st, b, p)
    nxt = eng.fresh(c, "next")
    s2 = st.copy()
    eng.wr(st, b, p, NONE, c.fr, c.span)
    eng.wr(s2, b, p, some(nxt), c.fr, c.span)
    arena = eng.read(s2, c.args[0])
    # a visited clause is live
    s2.assume(t.lt(ZERO, t.length(t.fld(t.sel(arena, nxt, s2.decide), 1, 2))))
    return [(st, NONE), (s2, some(nxt))]


def ar_collect(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    eng.wr(st, b, p, eng.fresh(c, "arena"), c.fr, c.span)
    return [(st, mk("gcmap", c.fr.ctx, c.block))]


def gc_update(eng, st, c):
    m = eng.read(st, c.args[0])
    r = mk("gcref", m, c.args[1])
    eng.disc_types[t.disc(r)] = [0, 1]
    out = []
    for s, v in eng.fork(st, t.eq(t.disc(r), ZERO)):
        out.append((s, NONE if v else some(mk("gcnew", m, c.args[1]))))
    return out


def live_lits(eng, st, c):
    """The literals of a stored clause that is not deleted (reasons, conflicts: C07, C31)."""
    for x, ty in zip(c.args, c.argtys):
        if "ClauseArena" in ty:
            out = ar_lits(eng, st, c)
            return [(s, r) for s, r in out
                    if s.assume(t.le(I(2), t.length(eng.read(s, r))))]
    return ar_lits(eng, st, c)


ARENA = {
    AR + "lits": ar_lits, AR + "lits_mut": ar_lits,
    AR + "header": ar_header, AR + "header_mut": ar_header,
    AR + "header_and_lits": ar_both, AR + "header_and_lits_mut": ar_both,
    AR + "clause_len": ar_len, AR + "add_clause": ar_add,
    AR + "delete_clause": ar_delete, AR + "shrink_clause": ar_shrink,
    AR + "next_clause": ar_next, AR + "collect_garbage": ar_collect,
    AR + "should_collect_garbage": freshv, AR + "utilization": freshv,
    "starlit::clause_arena::ClauseRefGcMap::update": gc_update,
}


# ------------------------------------------------------------ headers (C20)

LH = "starlit::prop::long::LongHeader::"
BOOLS = ("redundant", "protected")
LIMITS = {"glue": 63, "used": 3, "search_pos": (1 << 31) - 1}


def hget(eng, st, name, h):
    while h.op == "hset":
        if h.args[1] == name:
            v = h.args[2]
            lim = LIMITS.get(name)
            if lim is not None and st.decide(t.le(v, I(lim))) is not True:
                return mk("clamp", v, lim)
            return v
        h = h.args[0]
    if h.op == "hdr0":
        return FALSE if name in BOOLS else ZERO
    return mk("hget", name, h)


def getter(name):
    def f(eng, st, c):
        h = c.args[0]
        if eng.ty(c.argtys[0])["k"] == "ref":
            h = eng.read(st, h)
        return [(st, hget(eng, st, name, h))]
    return f


def setter(name):
    def f(eng, st, c):
        b, p = eng.deref(st, c.args[0])
        h = eng.rd(st, b, p)
        eng.wr(st, b, p, mk("hset", h, name, c.args[1]), c.fr, c.span)
        return [(st, UNIT)]
    return f


def hdr0(eng, st, c):
    return [(st, mk("hdr0"))]


HEADER = {"<starlit::prop::long::LongHeader as std::default::Default>::default": hdr0}
for _n in BOOLS + tuple(LIMITS):
    HEADER[LH + _n] = getter(_n)
    HEADER[LH + "set_" + _n] = setter(_n)


# ------------------------------------------------------------ list scan (C21)
#
# scan(array, position, kept)

MS = "starlit::util::mut_scan::"


def _scan_layout(eng, ty):
    """Indices of the fields (scan, item) of a MutScanItem type."""
    d = eng.ty(ty)
    fs = d["variants"][0]["fields"]
    si = [i for i, f in enumerate(fs) if "MutScan<" in f["ty"]]
    vi = [i for i, f in enumerate(fs) if i not in si and not eng._zst(f["ty"])]
    return si[0], vi[0], len(fs)


def ms_new(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    eng.wr(st, b, p, VNIL, c.fr, c.span)
    return [(st, mk("scan", c.args[0], a, ZERO, VNIL))]


def ms_next(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    sc = eng.rd(st, b, p)
    if sc.op != "scan":
        return None
    vec, a, i, kept = sc.args
    out = []
    item = eng.ty(c.destty)["args"][0]
    si, vi, n = _scan_layout(eng, item)
    for s, v in eng.fork(st, t.lt(i, t.length(a))):
        if not v:
            out.append((s, NONE))
            continue
        x = t.sel(a, i, s.decide)
        eng.wr(s, b, p, mk("scan", vec, a, t.add(i, ONE), kept), c.fr, c.span)
        out.append((s, some(t.st(*[c.args[0] if j == si else x if j == vi else UNIT
                                   for j in range(n)]))))
    return out


def ms_keep(eng, st, c):
    si, vi, n = _scan_layout(eng, c.argtys[0])
    scan, x = t.fld(c.args[0], si, n), t.fld(c.args[0], vi, n)
    b, p = eng.deref(st, scan)
    sc = eng.rd(st, b, p)
    if sc.op != "scan":
        return None
    vec, a, i, kept = sc.args
    eng.wr(st, b, p, mk("scan", vec, a, i, t.push(kept, x)), c.fr, c.span)
    return [(st, eng.fresh(c) if eng.tinfo(c.destty) != ("struct", []) else UNIT)]


def ms_remove(eng, st, c):
    si, vi, n = _scan_layout(eng, c.argtys[0])
    return [(st, t.fld(c.args[0], vi, n))]


def ms_drop(eng, s, fr, b, base, path, sp):
    sc = eng.rd(s, base, path)
    if sc.op == "scan":
        vec, a, i, kept = sc.args
        bb, pp = eng.deref(s, vec)
        eng.wr(s, bb, pp, t.cat(kept, eng.slice(s, a, i, t.length(a))), fr, sp)
    return [s]


def ms_item_drop(eng, s, fr, b, base, path, sp):
    return [s]


SCAN = {
    MS + "MutScan::<'a, T>::new": ms_new,
    MS + "MutScan::<'a, T>::next": ms_next,
    MS + "MutScanItem::<'a, 'b, T>::keep": ms_keep,
    MS + "MutScanItem::<'a, 'b, T>::remove": ms_remove,
    "drop " + MS + "MutScan": ms_drop,
    "drop " + MS + "MutScanItem": ms_item_drop,
}


# ------------------------------------------------------------ heap (C22)
#
# The heap is a set of keys; only membership matters to its users.

MH = "starlit::heap::MaxHeap::<Key, Value>::"


def mh_enqueue(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    k = c.args[1]
    if eng.ty(c.argtys[1]).get("path") == "starlit::lit::Lit":
        k = t.shr(k, ONE)
    eng.wr(st, b, p, mk("enq", eng.rd(st, b, p), k), c.fr, c.span)
    return [(st, UNIT)]


def mh_dequeue(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    k = c.args[1]
    if eng.ty(c.argtys[1]).get("path") == "starlit::lit::Lit":
        k = t.shr(k, ONE)
    eng.wr(st, b, p, mk("deq", eng.rd(st, b, p), k), c.fr, c.span)
    return [(st, UNIT)]


def mh_pop(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    h = eng.rd(st, b, p)
    out = []
    for s, v in eng.fork(st, mk("hempty", h)):
        if v:
            out.append((s, NONE))
        else:
            k = mk("hmax", h)
            eng.wr(s, b, p, mk("deq", h, k), c.fr, c.span)
            out.append((s, some(k)))
    return out


def mh_resize(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    eng.wr(st, b, p, mk("hrsz", eng.rd(st, b, p), c.args[1], c.fn["name"]), c.fr, c.span)
    return [(st, UNIT)]


HEAP = {
    MH + "enqueue": mh_enqueue, MH + "dequeue": mh_dequeue, MH + "pop_max": mh_pop,
    MH + "resize": mh_resize, MH + "resize_enqueued": mh_resize,
}


def allp():
    d = {}
    for x in (BASE, ASSIGN, ARENA, HEADER, SCAN, HEAP):
        d.update(x)
    return d
