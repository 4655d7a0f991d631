"""The in-place vector scan is decided method by method.  The buffer of the scanned vector is an
array of unknown length n; the scan holds positions write <= read <= end = n in it, where the cells
before `write` are the kept items, those from `read` on the items not yet reached, and those between
belong to nobody.  `new` has to establish this with no item kept or reached and the vector's length
0 (so that a leaked scan or an unwinding panic finds an empty vector).  From every such state, `next`
ends the scan exactly at the end, and otherwise takes the item at `read` and advances by one without
touching anything else; `keep` writes exactly the item to `write` and advances by one; `remove`
returns the item; neither touches anything else and no method drops an item; dropping the scan moves
the remaining items next to the kept ones and sets the length to the number of both.  All accesses
stay inside the buffer.  The fields are private and used by no other function, an item holds the
only reference to its scan, and no unsafe marker trait is implemented for either type.  These are the
contracts that the other checks use for the scan."""
from .. import terms as t
from . import scan as sc
from ..terms import I, ZERO, ONE, mk
from ..engine import Rule
from ..state import State
from ..check import Unknown
from .common import P, Pred, at, event, events, int_bounds

RULE = ("symbolic evaluation of the five scan operations over positions in an array: cells read, "
        "written and moved, fields afterwards, items dropped; ownership of the fields")
TECHNIQUE = "abstract interpretation of the raw-pointer operations in MIR with a typestate invariant"
ASSUMES = ["items occupy memory (pointers to items of size zero cannot be told apart; the scan is "
           "used with watches only)",
           "the standard library's pointer and Vec operations behave as documented"]

M = "starlit::util::mut_scan::"
SCAN = M + "MutScan"
ITEM = M + "MutScanItem"
BUF, LEN = ("G", "buffer"), ("G", "length")


class Ops(Rule):
    all_drops = True
    int_pointers = True

    def __init__(self, cx, vec):
        self.cx, self.vec = cx, vec
        self.n = self.buf = self.shift = None
        self.trace = True
        self.preds = {"FROM": From()}

    def inside(self, eng, st, ptr, n, what, c):
        if ptr.op == "ref":
            return None
        ok = st.decide(t.le(ZERO, ptr)) is not False and st.decide(t.le(t.add(ptr, n), self.n)) is True
        self.cx.ob(ok, "c21:bounds:" + what, "%s outside the buffer" % what, at(c.fr, c.span))
        return ptr

    def event(self, st, *ev):
        if self.trace:
            event(st, *ev)

    def on_raw(self, eng, st, fr, ptr, ty):
        self.cx.ob(ptr.op == "ref", "c21:deref", "a pointer of a scan is dereferenced in place, where "
                   "there may be no item", at(fr, None))

    def loop_alls(self, eng, fr, h, head, phis, states, sigma):
        if not self.shift:
            return ()
        lo, sh = self.shift
        b = self.buf
        out = []
        ints = [ph for ph, _ in int_bounds(head, phis, states, sigma)]
        now = head.mem[BUF]
        if now is b:
            return ()
        same, moved = t.st(b, ZERO), t.st(b, sh)
        out.append(mk("all", now, ZERO, lo, "FROM", same))
        for x in ints:
            out.append(mk("all", now, lo, x, "FROM", moved))
            out.append(mk("all", now, x, self.n, "FROM", same))
        return out

    def on_drop(self, eng, st, fr, base, path, ty, sp):
        if ty in ("T",) or "MutScanItem" in ty:
            event(st, "dropped")
            return [st]
        return None

    def on_call(self, eng, st, c):
        p = c.path
        tail = p.rsplit("::", 1)[-1]
        a = c.args
        ptr = lambda i: i
        vec = bool(a) and a[0].op in ("ref", "sym") and eng.deref(st, a[0])[0] == P(self.vec)
        if vec and tail in ("as_mut_ptr", "as_ptr"):
            return [(st, ptr(ZERO))]
        if vec and tail in ("as_mut_ptr_range", "as_ptr_range"):
            return [(st, t.st(ptr(ZERO), ptr(st.mem[LEN])))]
        if vec and tail == "len":
            return [(st, st.mem[LEN])]
        if vec and tail == "is_empty":
            return [(st, t.eq(st.mem[LEN], ZERO))]
        if vec and tail == "set_len":
            st.mem[LEN] = a[1]
            return [(st, t.st())]
        if vec and tail in ("deref", "deref_mut", "as_mut_slice", "as_slice", "as_mut", "borrow_mut",
                            "by_ref"):
            return [(st, a[0])]
        raw = ("ptr::" in p or "intrinsics::" in p)
        if vec and not c.fn.get("crate") == "starlit":
            self.cx.ob(False, "c21:vec:" + tail, "the scanned vector is handed to %s" % p,
                       at(c.fr, c.span))
        if not raw:
            return None
        if tail in ("add", "wrapping_add", "offset", "sub", "wrapping_sub") and len(a) == 2 and \
                a[0].op != "ref":
            return [(st, t.sub(a[0], a[1]) if "sub" in tail else t.add(a[0], a[1]))]
        if tail in ("offset_from", "offset_from_unsigned", "sub_ptr") and "ref" not in (a[0].op, a[1].op):
            return [(st, t.sub(a[0], a[1]))]
        if tail in ("cast_const", "cast_mut", "cast") and a[0].op != "ref":
            return [(st, a[0])]
        if tail in ("read", "read_unaligned", "read_volatile") and len(a) == 1:
            i = self.inside(eng, st, a[0], ONE, "an item is read", c)
            if i is None:
                return None
            self.event(st, "read", i)
            return [(st, t.sel(st.mem[BUF], i, st.decide))]
        if tail in ("write", "write_unaligned", "write_volatile") and len(a) == 2:
            i = self.inside(eng, st, a[0], ONE, "an item is written", c)
            if i is None:
                return None
            self.event(st, "write", i)
            st.mem[BUF] = t.store(st.mem[BUF], i, a[1])
            return [(st, t.st())]
        if tail in ("copy", "copy_nonoverlapping", "copy_to", "copy_to_nonoverlapping", "copy_from",
                    "copy_from_nonoverlapping"):
            src, dst, n = (a[1], a[0], a[2]) if "copy_from" in tail else a[:3]
            i = self.inside(eng, st, src, n, "items are read", c)
            j = self.inside(eng, st, dst, n, "items are written", c)
            if i is None and j is not None and s_one(st, n):
                self.event(st, "write", j)
                st.mem[BUF] = t.store(st.mem[BUF], j, eng.read(st, src))
                return [(st, t.st())]
            if i is None or j is None:
                return None
            if "nonover" in tail:
                ok = st.decide(t.le(t.add(i, n), j)) is True or \
                    st.decide(t.le(t.add(j, n), i)) is True or st.decide(t.le(n, ZERO)) is True
                self.cx.ob(ok, "c21:overlap", "the source and target of a copy may overlap",
                           at(c.fr, c.span))
            self.event(st, "copy", i, j, n)
            b = st.mem[BUF]
            st.mem[BUF] = mk("splice", b, j, t.subarr(b, i, t.add(i, n)))
            return [(st, t.st())]
        return None


def s_one(st, n):
    return st.decide(t.eq(n, ONE)) is True


class From(Pred):
    """The item at i was at i plus the distance in the array (both: the version)."""
    ELEMENTWISE = True

    def check(self, st, a, i, v):
        b, d = v.args
        got, src = t.sel(a, i, st.decide), t.add(i, d)
        if got.op == "sel" and got.args[0] is not b:
            # what is known about the array it comes from
            k = got.args[1]
            for (x, lo, hi, p, pv), val in list(st.alls.items()):
                if x is got.args[0] and p == "FROM" and val and pv.args[0] is b and \
                        st.decide(t.le(lo, k)) is True and st.decide(t.lt(k, hi)) is True:
                    got = t.sel(b, t.add(k, pv.args[1]), st.decide)
                    break
        return got is t.sel(b, src, st.decide) or got.op == "sel" and got.args[0] is b and \
            st.decide(t.eq(got.args[1], src)) is True


class Roles(object):
    def __init__(self, cx):
        self.cx = cx
        self.T = self.fields(SCAN)
        self.I = self.fields(ITEM)
        si = [i for i, f in enumerate(self.I) if "MutScan<" in f["ty"]]
        vi = [i for i, f in enumerate(self.I) if f["ty"] == "T"]
        if len(si) != 1 or len(vi) != 1:
            raise Unknown("fields of MutScanItem")
        self.scan, self.item = si[0], vi[0]
        cx.ob(self.I[self.scan]["ty"].startswith("&mut "), "c21:exclusive",
              "an item does not hold an exclusive reference to its scan", ITEM)
        vs = [i for i, f in enumerate(self.T) if "Vec<" in f["ty"]]
        if len(vs) != 1:
            raise Unknown("fields of MutScan")
        self.vec = vs[0]
        for a, fs in ((SCAN, self.T), (ITEM, self.I)):
            for f in fs:
                cx.ob(not f["pub"], "c21:private:%s.%s" % (a, f["name"]),
                      "field %s is public" % f["name"], a)

    def fields(self, adt):
        for s, d in self.cx.lib.types.items():
            if d["k"] == "adt" and d["path"] == adt and d["args"] == ["T"]:
                return d["variants"][0]["fields"]
        raise Unknown(adt)

    def key(self, tail):
        ks = [k for k in self.cx.lib.raw if k.startswith(tail[0]) and k.endswith(tail[1])
              and self.cx.lib.body(k).path.endswith(tail[2])]
        ks = [k for k in ks if k.endswith("<T>")]
        if len(ks) != 1:
            raise Unknown("scan operation " + tail[2])
        return ks[0]


def method(cx, adt, name):
    out = []
    for k in cx.lib.raw:
        if not k.endswith("<T>") or "{closure" in k:
            continue
        b = cx.lib.body(k)
        p = b.path
        if p.rsplit("::", 1)[-1] == name and p.startswith(("<" + adt + "<", adt + "::<")):
            out.append(k)
    if len(out) != 1:
        raise Unknown("%s::%s" % (adt, name))
    return out[0]


def run_on(cx, key, st, args, rule):
    e = cx.engine(rule, {})
    e, a, outs = cx.run(key, st=st, args=args, rule=rule, eng=e)
    return e, a, outs


V = mk("sym", "vec")
S = mk("sym", "scan")


def new(cx, ro):
    key = method(cx, SCAN, "new")
    rule = Ops(cx, V)
    n = rule.n = mk("sym", "n")
    st = State()
    st.mem[LEN] = n
    st.mem[BUF] = buf = mk("sym", "b")
    st.assume(t.le(ZERO, n))
    e, a, outs = run_on(cx, key, st, {0: V}, rule)
    w = cx.where(key)
    role = {}
    for s, r in outs:
        f = [t.fld(r, i, len(ro.T)) for i in range(len(ro.T))]
        cx.ob(f[ro.vec] is V or e.deref(s, f[ro.vec]) == e.deref(s, V), "c21:new:vec",
              "the scan is not over the given vector", w)
        cx.ob(s.decide(t.eq(s.mem[LEN], ZERO)) is True, "c21:new:length",
              "the vector has items while it is scanned: a leaked scan lets them be used twice", w)
        cx.ob(not touched(s) and s.mem[BUF] is buf, "c21:new:items", "items are touched", w)
        for i in range(len(ro.T)):
            if i == ro.vec:
                continue
            o = f[i]
            k = None
            if e._zst(ro.T[i]["ty"]):
                k = "none"
            elif o.op not in ("ref", "st", "en"):
                k = "start" if s.decide(t.eq(o, ZERO)) is True else \
                    "end" if s.decide(t.eq(o, n)) is True else None
            if k is None or role.setdefault(i, k) != k:
                cx.ob(False, "c21:new:position", "a scan does not begin with all items ahead", w)
                return None
    cx.ob(bool(outs), "c21:new", "a scan cannot be made", w)
    ends = [i for i, k in role.items() if k == "end"]
    starts = [i for i, k in role.items() if k == "start"]
    if len(ends) != 1 or len(starts) != 2:
        if len(role) == len(ro.T) - 1 and (len(ends) > 1 or not ends) and len(starts) + len(ends) == 3:
            cx.ob(False, "c21:new:position", "a scan does not begin with all items ahead", w)
            return None
        raise Unknown("positions of a scan")
    ro.end = ends[0]
    return starts


def touched(s):
    return [ev.args for ev in events(s) if ev.args[0] in ("read", "write", "copy", "dropped")]


def begin(cx, ro, read, write, item):
    """A scan at an arbitrary point."""
    rule = Ops(cx, V)
    n = rule.n = mk("sym", "n")
    w, r = mk("sym", "w"), mk("sym", "r")
    st = State()
    for c in (t.le(ZERO, w), t.lt(w, r) if item else t.le(w, r), t.le(r, n)):
        st.assume(c)
    b = mk("sym", "b")
    st.mem[LEN], st.mem[BUF] = ZERO, b
    rule.buf = b
    ptr = lambda i: i
    f = []
    for i in range(len(ro.T)):
        f.append(V if i == ro.vec else ptr(n) if i == ro.end else ptr(r) if i == read else
                 ptr(w) if i == write else t.st())
    st.mem[P(S)] = t.st(*f)
    return rule, st, b, w, r, n


def positions(e, s, ro, read, write):
    v = s.mem[P(S)]
    out = []
    for i in (write, read, ro.end):
        out.append(t.fld(v, i, len(ro.T)))
    vec = t.fld(v, ro.vec, len(ro.T))
    if vec is not V and e.deref(s, vec) != e.deref(s, V):
        return None
    return out


def stands(cx, e, s, ro, read, write, want, key, w, msg):
    p = positions(e, s, ro, read, write)
    return cx.ob(p is not None and all(s.decide(t.eq(x, y)) is True for x, y in zip(p, want))
                 and s.decide(t.eq(s.mem[LEN], ZERO)) is True, key, msg, w)


def check_next(cx, ro, starts):
    key = method(cx, SCAN, "next")
    where = cx.where(key)
    # the field that moves is the read position
    found = None
    for read, write in (starts, starts[::-1]):
        rule, st, b, w, r, n = begin(cx, ro, read, write, False)
        rule.cx = Mute(cx)
        e, a, outs = run_on(cx, key, st, {0: S}, rule)
        for s, x in outs:
            p = positions(e, s, ro, read, write)
            if p is not None and s.decide(t.eq(p[0], w)) is True and s.decide(t.eq(p[1], r)) is False:
                found = (read, write)
        if found:
            break
    if not found:
        cx.ob(False, "c21:next:advance", "the scan does not advance", where)
        return None
    read, write = found
    rule, st, b, w, r, n = begin(cx, ro, read, write, False)
    e, a, outs = run_on(cx, key, st, {0: S}, rule)
    some = none = False
    for s, x in outs:
        at_end = s.decide(t.eq(r, n))
        if x.op != "en":
            raise Unknown("result of MutScan::next")
        if x.args[0] == 0:
            none = True
            cx.ob(at_end is True, "c21:next:early", "the scan ends before the last item", where)
            cx.ob(not touched(s), "c21:next:end", "items are touched at the end", where)
            stands(cx, e, s, ro, read, write, (w, r, n), "c21:next:endpos",  where,
                   "the scan moves at the end")
            continue
        some = True
        it = x.args[1]
        k = len(ro.I)
        ev = touched(s)
        cx.ob(len(ev) == 1 and ev[0][0] == "read" and s.decide(t.eq(ev[0][1], r)) is True,
              "c21:next:take", "the item ahead is not taken exactly once", where)
        cx.ob(t.fld(it, ro.item, k) is t.sel(b, r, s.decide), "c21:next:item",
              "the item handed out is not the one ahead", where)
        sp = t.fld(it, ro.scan, k)
        cx.ob(sp is S or e.deref(s, sp) == e.deref(s, S), "c21:next:scan",
              "the item does not belong to this scan", where)
        cx.ob(s.mem[BUF] is b, "c21:next:buffer", "items change", where)
        stands(cx, e, s, ro, read, write, (w, t.add(r, ONE), n), "c21:next:position", where,
               "the scan does not advance by one item")
    cx.ob(some and none, "c21:next", "a scan never ends or never begins", where)
    return read, write


class Mute(object):
    def __init__(self, cx):
        self.cx = cx

    def __getattr__(self, n):
        return getattr(self.cx, n)

    def ob(self, ok, *a):
        return ok


def item_value(ro, x):
    return t.st(*[S if i == ro.scan else x if i == ro.item else t.st() for i in range(len(ro.I))])


def check_keep(cx, ro, read, write):
    key = method(cx, ITEM, "keep")
    where = cx.where(key)
    rule, st, b, w, r, n = begin(cx, ro, read, write, True)
    x = mk("sym", "item")
    e, a, outs = run_on(cx, key, st, {0: item_value(ro, x)}, rule)
    cx.ob(bool(outs), "c21:keep", "an item cannot be kept", where)
    for s, _ in outs:
        ev = touched(s)
        cx.ob(not [v for v in ev if v[0] == "dropped"], "c21:keep:dropped",
              "an item that is kept is dropped as well", where)
        ev = [v for v in ev if v[0] != "dropped"]
        cx.ob(len(ev) == 1 and ev[0][0] in ("write", "copy") and
              s.decide(t.eq(ev[0][1 if ev[0][0] == "write" else 2], w)) is True,
              "c21:keep:write", "an item is not put behind the kept ones", where)
        cx.ob(t.sel(s.mem[BUF], w, s.decide) is x, "c21:keep:item",
              "something else is put into the vector than the item", where)
        stands(cx, e, s, ro, read, write, (t.add(w, ONE), r, n), "c21:keep:position", where,
               "the number of kept items does not grow by one")


def check_remove(cx, ro, read, write):
    key = method(cx, ITEM, "remove")
    where = cx.where(key)
    rule, st, b, w, r, n = begin(cx, ro, read, write, True)
    x = mk("sym", "item")
    e, a, outs = run_on(cx, key, st, {0: item_value(ro, x)}, rule)
    cx.ob(bool(outs), "c21:remove", "an item cannot be removed", where)
    for s, v in outs:
        cx.ob(v is x, "c21:remove:item", "something else than the item is handed out", where)
        cx.ob(not touched(s), "c21:remove:touched", "a removed item is dropped or items are "
              "touched", where)
        stands(cx, e, s, ro, read, write, (w, r, n), "c21:remove:position", where,
               "removing an item moves the scan")


def check_deref(cx, ro, read, write):
    for name in ("deref", "deref_mut"):
        key = method(cx, ITEM, name)
        where = cx.where(key)
        rule, st, b, w, r, n = begin(cx, ro, read, write, True)
        x = mk("sym", "item")
        self = mk("sym", "wrapped")
        st.mem[P(self)] = item_value(ro, x)
        e, a, outs = run_on(cx, key, st, {0: self}, rule)
        for s, v in outs:
            bb, pp = e.deref(s, v)
            ok = bb == P(self) and len(pp) == 1 and pp[0][0] == "f" and pp[0][1] == ro.item
            cx.ob(ok, "c21:%s:item" % name, "%s does not give the item" % name, where)
            cx.ob(not touched(s), "c21:%s:touched" % name, "%s touches items" % name, where)
            stands(cx, e, s, ro, read, write, (w, r, n), "c21:%s:position" % name, where,
                   "%s moves the scan" % name)


def check_drop(cx, ro, read, write):
    try:
        key = method(cx, SCAN, "drop")
    except Unknown:
        cx.ob(False, "c21:drop", "the items not reached and those kept are lost", SCAN)
        return
    where = cx.where(key)
    rule, st, b, w, r, n = begin(cx, ro, read, write, False)
    rule.trace = False
    rule.shift = (w, t.sub(r, w))
    st.preds = rule.preds
    st.add_all(b, ZERO, n, "FROM", t.st(b, ZERO))
    e, a, outs = run_on(cx, key, st, {0: S}, rule)
    cx.ob(bool(outs), "c21:drop", "a scan cannot be ended", where)
    for s, _ in outs:
        ev = touched(s)
        cx.ob(not [v for v in ev if v[0] == "dropped"], "c21:drop:dropped", "an item is dropped",
              where)
        left = t.sub(n, r)
        total = t.add(w, left)
        cx.ob(s.decide(t.eq(s.mem[LEN], total)) is True, "c21:drop:length",
              "the vector's length is not the number of items kept and not reached", where)
        j = mk("sym", "j")
        for lo, hi, src, what in ((ZERO, w, j, "kept"),
                                  (w, total, t.add(t.sub(j, w), r), "rest")):
            s2 = s.copy()
            if not (s2.assume(t.le(lo, j)) and s2.assume(t.lt(j, hi))):
                continue
            v = t.st(b, t.sub(src, j))
            ok = From().check(s2, s2.mem[BUF], j, v) or \
                s.decide_all(mk("all", s2.mem[BUF], lo, hi, "FROM", v)) is True
            cx.ob(ok, "c21:drop:" + what, "the items %s are not where they belong in the end"
                  % ("that were kept" if what == "kept" else "not reached"), where)


def elsewhere(cx, ro):
    cm = sc.callmap(cx.lib)
    roots = {method_path(cx, SCAN, x) for x in ("new", "next", "drop")} | \
        {method_path(cx, ITEM, x) for x in ("keep", "remove", "deref", "deref_mut")}
    names = {SCAN: "scan", ITEM: "item"}
    used = {}
    for k, b in sc.bodies(cx.lib):
        for pl, use, sp in sc.places(b):
            for a, i, last in sc.fields_of(cx.lib, b, pl):
                if a in names and use != "drop":
                    used.setdefault(sc.base(b.path), sp)
    cx.ob(bool(used), "c21:used", "nothing uses the fields of a scan", SCAN)
    for p in sorted(used):
        bad = {p} if p not in roots and cm.get(p) is None else sc.only_from(cm, p, roots)
        f = cx.lib.fns.get(p, {})
        if p in roots or cm.get(p) is None and f and not (
                f.get("pub") or f.get("exported") or f.get("impl_trait")):
            bad = set()         # analysed, or never called
        cx.ob(not bad, "c21:elsewhere:" + p, "%s handles the pointers of a scan and is called by %s"
              % (p, ", ".join(sorted(bad))), p)
    for s, d in cx.lib.types.items():
        if d["k"] == "adt" and d["path"] == ITEM:
            cx.ob(not d.get("drop_impl"), "c21:item:drop", "dropping an item does more than that",
                  ITEM)
            break
    for im in cx.lib.d["impls"]:
        txt = str(im)
        if ("MutScan" in txt) and any(x in txt for x in ("marker::Send", "marker::Sync",
                                                         "marker::Copy", "clone::Clone",
                                                         "Clone", "Copy", "'Send'", "'Sync'")):
            cx.ob(False, "c21:marker", "a scan is sent, shared or duplicated", SCAN)


def method_path(cx, adt, name):
    try:
        return sc.base(cx.lib.body(method(cx, adt, name)).path)
    except Unknown:
        return None


def run(cx):
    ro = Roles(cx)
    starts = new(cx, ro)
    if starts is None:
        return
    rw = check_next(cx, ro, starts)
    elsewhere(cx, ro)
    if rw is None:
        return
    check_keep(cx, ro, *rw)
    check_remove(cx, ro, *rw)
    check_deref(cx, ro, *rw)
    check_drop(cx, ro, *rw)
