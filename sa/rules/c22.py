"""Order and position index of the heap, by abstract interpretation with a ghost cursor.

Every operation is analysed from an arbitrary state in which the index and the order hold.  At every
loop head, back edge and return the net change of the entries since the last such point is taken
from the abstract state: each changed entry must be found under its key in the position index, each
changed key of the index must be where the index says or be marked as absent, and the set of keys
must be the old one, or that with one absent key added, or with one key removed and marked as absent.
A ghost cursor names the entry that may be out of order, with the side that may be wrong: up after
an addition, after an increase and after a replacement by a larger key, down after one by a smaller
key or at the root.  Each step of a loop must exchange the cursor's entry with its parent when that is
not larger, or with a child that is neither smaller than it nor than the other child, and the cursor
moves along; at the return the cursor's parent, or both of its children, must be in order.  The
operations add, remove and return the very keys they are asked for: the maximum is entry 0, absent
keys are left alone.  Resizing removes each key that is cut off; the new keys are marked as absent, or
all enqueued."""
from .common import *
from .. import models
from ..state import State
from . import scan, c34

RULE = "net change of entries and index per loop step; ghost cursor for the entry out of order"
ASSUMES = ["positions fit into the index type (fewer than 2^32 - 1 keys)", "the function passed to "
           "increase does not decrease the value, that passed to apply_monotone is monotone (documented)"]
BOTH_PROFILES = False
DEBUG = 0

HEAP = "starlit::heap::MaxHeap"
CUR, ITEM = ("G", "cursor"), ("G", "item")
AH, AP, AV = ("G", "heap"), ("G", "pos"), ("G", "values")
CMP = {"lt": t.lt, "le": t.le, "gt": lambda a, b: t.lt(b, a), "ge": lambda a, b: t.le(b, a)}


def rank(v):
    return mk("rank", v)


def same(s, a, b):
    s.assume(t.le(a, b))
    s.assume(t.le(b, a))


class Heap(object):
    def __init__(self, cx):
        self.cx = cx
        tys = [(s, d) for s, d in cx.lib.types.items() if d["k"] == "adt" and d["path"] == HEAP]
        self.ok = False
        for s, d in tys:
            if s == HEAP + "<Key, Value>":
                names = [x["name"] for x in d["variants"][0]["fields"]]
                if {"values", "heap_pos", "heap"} <= set(names):
                    self.v, self.p, self.h = [names.index(x) for x in ("values", "heap_pos", "heap")]
                    self.n = len(names)
                    self.ty, self.ok = s, True
        self.absent = None

    def methods(self):
        for p, f in sorted(self.cx.lib.fns.items()):
            if f.get("self_ty") == HEAP + "<Key, Value>":
                ks = [k for k in self.cx.lib.find(p) if " <Key, Value" in k or "<" not in k.split(">::")[-1]]
                yield p, f, (ks or [None])[0]


def fields(eng, st, base, hp):
    return [eng.rd(st, base, (("f", i, hp.n),)) for i in (hp.h, hp.p, hp.v)]


def changes(x, root):
    """Touched indices of x relative to root, or None."""
    out, n = [], 0
    while x is not root:
        n += 1
        if n > 60:
            return None
        if x.op == "store":
            out.append(x.args[1])
            x = x.args[0]
        elif x.op == "push":
            out.append(t.length(x.args[0]))
            x = x.args[0]
        elif x.op == "swp":
            out += x.args[1:]
            x = x.args[0]
        elif x.op == "sub" and x.args[1] is ZERO:
            x = x.args[0]
        else:
            return None
    return out


def distinct(s, xs):
    out = []
    for x in xs:
        if not any(s.decide(t.eq(x, y)) is True for y in out):
            out.append(x)
    return out


class Watch(Rule):
    def __init__(self, cx, hp, base, path, grow=None):
        self.cx, self.hp, self.base, self.path = cx, hp, base, path
        self.log = set()
        self.grow = grow

    # ---- comparisons of values
    def on_call(self, eng, st, c):
        p = c.path
        tail = p.rsplit("::", 1)[-1]
        r = applied(eng, st, c)
        if r is not None:
            return r
        if c.argtys and c.argtys[0].lstrip("&") == "Value" and ("PartialOrd" in p or "::Ord" in p or
                                                             "PartialEq" in p or "Ord>" in p):
            vals = []
            for x, ty in zip(c.args, c.argtys):
                while ty.startswith("&"):
                    x = eng.read(st, x)
                    ty = ty[1:]
                vals.append(rank(x))
            a, b = vals
            if tail in CMP:
                return [(st, CMP[tail](a, b))]
            if tail in ("eq", "ne"):
                out = []
                for s, v in eng.fork(st, t.eq(a, b)):
                    if v:
                        same(s, a, b)
                    out.append((s, t.TRUE if v == (tail == "eq") else t.FALSE))
                return out
            if tail in ("cmp", "partial_cmp"):
                out = models.cmp3(eng, st, a, b)
                for s, v in out:
                    if v is t.en(1):
                        same(s, a, b)
                if tail == "partial_cmp":
                    out = [(s, models.some(v)) for s, v in out]
                return out
        if tail == "vec_map_index" and "VecMapIndex" in p:
            x = c.args[0]
            while x.op == "ref":
                x = eng.read(st, x)
            return [(st, mk("key", x))]
        if tail == "vec_map_key_from_index":
            return [(st, mk("keyof", c.args[0]))]
        return None

    # ---- net changes
    def partition(self, eng, st):
        self.point(eng, st, self.path)
        return None

    def on_backedge(self, eng, st, fr, h):
        self.point(eng, st, at(fr, fr.body.blocks[h]["sp"]))

    def begin(self, eng, st):
        h, p, v = fields(eng, st, self.base, self.hp)
        st.mem.update({AH: h, AP: p, AV: v, CUR: ZERO, ITEM: ZERO})

    def mode(self, st):
        m = events(st, "mode")
        return m[0].args[1] if m else None

    def set_mode(self, st, m):
        st.ms = tuple(x for x in st.ms if x.args[0] != "mode")
        if m is not None:
            event(st, "mode", mk("m", m) if not isinstance(m, str) else m)

    def bad(self, st, key, msg, w):
        self.cx.ob(False, "c22:%s:%s" % (key, self.path.rsplit("::", 1)[-1]), msg, w)
        self.set_mode(st, "bad")

    def point(self, eng, st, w):
        if AH not in st.mem or self.mode(st) == "bad":
            return
        h0, p0, v0 = st.mem[AH], st.mem[AP], st.mem[AV]
        h1, p1, v1 = fields(eng, st, self.base, self.hp)
        if h1 is h0 and p1 is p0 and v1 is v0:
            return
        ob = self.cx.ob
        ch, cp, cv = changes(h1, h0), changes(p1, p0), changes(v1, v0)
        if ch is None or cp is None or cv is None:
            if DEBUG:
                print(w, ch, cp, cv, str(h1)[:300], "||", str(h0)[:200])
            return self.bad(st, "unknown", "the heap changes in a way that is not followed", w)
        if ch or cp or t.length(h1) is not t.length(h0):
            if not self.entries(eng, st, h0, p0, v0, h1, p1, v1, ch, cp, w):
                return
        if cv:
            self.values(eng, st, h0, p0, v0, v1, cv, w)
        st.mem.update({AH: h1, AP: p1, AV: v1})

    def values(self, eng, st, h0, p0, v0, v1, cv, w):
        cv = distinct(st, cv)
        if len(cv) != 1 or "increase" not in self.path:
            return self.bad(st, "value", "values change", w)
        pos = t.sel(p0, cv[0], st.decide)
        q = st.decide(t.lt(pos, t.length(h0)))
        if q is False:
            return
        if q is None or self.mode(st) is not None:
            return self.bad(st, "value", "it is not looked up whether the changed value is "
                            "enqueued", w)
        st.assume(t.eq(t.sel(h0, pos), cv[0]))
        st.mem[CUR], st.mem[ITEM] = pos, cv[0]
        self.set_mode(st, "up")

    def known(self, st, h0, p0, js, ks):
        """The state with the instances of the invariant for positions js and keys ks."""
        s = st.copy()
        n = t.length(h0)
        ok = True
        pos = list(js)
        for k in ks:
            q = t.sel(p0, k, s.decide)
            if s.decide(t.lt(q, n)) is True:
                ok &= s.assume(t.eq(t.sel(h0, q, s.decide), k))
                pos.append(q)
        pos = [j for j in distinct(s, pos) if s.decide(t.lt(j, n)) is True and
               s.decide(t.le(ZERO, j)) is not False]
        for x in range(len(pos)):
            for y in range(x):
                if s.decide(t.eq(pos[x], pos[y])) is False:
                    ok &= s.assume(t.notb(t.eq(t.sel(h0, pos[x], s.decide), t.sel(h0, pos[y], s.decide))))
        for j in pos:
            k = t.sel(h0, j, s.decide)
            ok &= s.assume(t.eq(t.sel(p0, k, s.decide), j))
        for k in ks:
            q = t.sel(p0, k, s.decide)
            if s.decide(t.lt(q, n)) is True:
                for j in pos:
                    if s.decide(t.eq(q, j)) is False:
                        ok &= s.assume(t.notb(t.eq(k, t.sel(h0, j, s.decide))))
            # an absent key is none of the entries
            if s.decide(t.lt(t.sel(p0, k, s.decide), n)) is False:
                for j in pos:
                    ok &= s.assume(t.notb(t.eq(t.sel(h0, j), k)))
        return s if ok else None

    def entries(self, eng, st, h0, p0, v0, h1, p1, v1, ch, cp, w):
        D = lambda s, x, y: s.decide(t.eq(x, y)) is True
        n0, n1 = t.length(h0), t.length(h1)
        grow = st.decide(t.eq(n1, t.add(n0, ONE))) is True
        shrink = st.decide(t.eq(t.add(n1, ONE), n0)) is True
        if not grow and not shrink and not D(st, n0, n1):
            self.bad(st, "count", "the number of entries changes by more than one", w)
            return False
        last = t.sub(n0, ONE)
        if D(st, last, ZERO):
            last = ZERO
        js = distinct(st, ([ZERO] if any(D(st, j, ZERO) for j in ch) else []) + ch + ([last] if shrink else []) + ([n0] if grow else []))
        s = self.known(st, h0, p0, js, cp)
        if s is None:
            return True         # impossible
        for j in js:
            for l in (ZERO,):
                if s.decide(t.le(l, j)) is None:
                    s.assume(t.le(l, j))
        # positions whose entry really changes
        chg, cut = [], []
        for j in js:
            if s.decide(t.lt(j, n1)) is not True:
                if s.decide(t.lt(j, n1)) is None:
                    self.bad(st, "position", "an entry changes at a position that may be outside", w)
                    return False
                cut.append(j)
            elif s.decide(t.le(n0, j)) is True or not D(s, t.sel(h1, j, s.decide), t.sel(h0, j, s.decide)):
                chg.append(j)
        new = {j: self.simp(s, t.sel(h1, j, s.decide)) for j in chg}
        where = lambda k: self.simp(s, t.sel(p1, k, s.decide))
        for j in chg:
            if DEBUG and not D(s, where(new[j]), j):
                print("INDEX", w, "j", j, "new", str(new[j])[:100], "where", str(where(new[j]))[:300], "p1", str(p1)[:200])
            if not D(s, where(new[j]), j):
                self.bad(st, "index", "an entry is not found at its place in the position index", w)
                return False
        gone = [t.sel(h0, j, s.decide) for j in chg + cut if s.decide(t.lt(j, n0)) is True]
        absent = lambda k: self.gone(s, where(k))
        for k in gone + cp:
            q = where(k)
            if absent(k) or any(D(s, q, j) and D(s, new[j], k) for j in chg):
                continue
            if any(D(s, k, g) for g in gone) or not self.kept(s, h0, p0, p1, k):
                self.bad(st, "index", "the position index does not say where a key is", w)
                return False
        for k in cp:
            if not any(D(s, k, g) for g in gone) and not any(D(s, k, new[j]) for j in chg) and \
                    not self.kept(s, h0, p0, p1, k):
                self.bad(st, "index", "the position of a key changes although its entry does not", w)
                return False
        m = self.mode(st)
        if grow:
            if [j for j in chg if not D(s, j, n0)]:
                self.bad(st, "added", "other entries change when a key is added", w)
                return False
            k = t.sel(h1, n0, s.decide)
            if s.decide(t.lt(t.sel(p0, k, s.decide), n0)) is not False:
                self.bad(st, "added", "a key is added that may be on the heap already", w)
                return False
            return self.start(st, m, "up", n0, k, ("added", k), w)
        if shrink:
            return self.removed(st, s, m, h0, v1, chg, new, last, cp, ch, absent, w)
        if not chg:
            return True
        return self.step(st, s, m, h0, v1, chg, new, ch, w)

    def simp(self, s, x):
        """Reads from changed arrays under the facts of s."""
        if x.op == "sel" and x.args[0].op in ("store", "push", "swp"):
            y = t.sel(x.args[0], x.args[1], s.decide)
            return self.simp(s, y) if y is not x else x
        return x

    def gone(self, s, q):
        return q.op == "i" and q.args[0] >= 2 ** 32 - 1

    def kept(self, s, h0, p0, p1, k):
        return s.decide(t.eq(t.sel(p1, k, s.decide), t.sel(p0, k, s.decide))) is True

    def start(self, st, m, new, cur, item, ev, w):
        if m is not None:
            self.bad(st, "order", "the heap changes while an entry may be out of order", w)
            return False
        st.mem[CUR], st.mem[ITEM] = cur, item
        self.set_mode(st, new)
        event(st, *ev)
        return True

    def removed(self, st, s, m, h0, v1, chg, new, last, cp, ch, absent, w):
        D = lambda x, y: s.decide(t.eq(x, y)) is True
        j = chg[0] if chg else last
        k = t.sel(h0, j, s.decide)
        names = [k] + [x for x in cp if D(x, k)]
        if len(chg) > 1 or chg and not D(new[j], t.sel(h0, last, s.decide)):
            self.bad(st, "removed", "other keys change places when a key is removed", w)
            return False
        if not absent(k):
            self.bad(st, "removed", "a removed key is not marked as absent", w)
            return False
        if not chg:
            if m is not None:
                self.bad(st, "order", "the heap changes while an entry may be out of order", w)
                return False
            event(st, "removed", k)
            return True
        x = t.sel(h0, last, s.decide)
        le = lambda a, b: s.decide(t.le(rank(t.sel(v1, a, s.decide)), rank(t.sel(v1, b, s.decide)))) is True
        up = any(le(y, x) for y in names)
        down = D(j, ZERO) or any(le(x, y) for y in names)
        j = next((c for c in ch if D(c, j)), j)     # as the program names it
        return self.start(st, m, "both" if up and down and not D(j, ZERO) else "down" if down else
                          "up" if up else "any", j, x, ("removed", k), w)

    def step(self, st, s, m, h0, v1, chg, new, ch, w):
        D = lambda x, y: s.decide(t.eq(x, y)) is True
        cur, item = st.mem[CUR], st.mem[ITEM]
        ok = len(chg) == 2 and D(new[chg[0]], t.sel(h0, chg[1], s.decide)) and \
            D(new[chg[1]], t.sel(h0, chg[0], s.decide))
        other = [j for j in chg if not D(j, cur)]
        if DEBUG and (not ok or len(other) != 1 or m is None):
            print("STEP", w, ok, m, "cur", cur, "chg", chg, "item", item)
            for j in chg:
                print("   ", str(new[j])[:150], "|", str(h0)[:100])
        if not ok or len(other) != 1 or m is None:
            self.bad(st, "step", "entries other than the one out of order change places", w)
            return False
        o = other[0]
        cur = next(j for j in chg if j is not o)
        r = lambda k: rank(t.sel(v1, k, s.decide))
        le = lambda a, b: s.decide(t.le(a, b)) is True
        at_ = lambda j: r(t.sel(h0, j, s.decide))
        same(s, r(item), at_(cur))
        if D(o, t.shr(t.sub(cur, ONE), ONE)) and s.decide(t.lt(ZERO, cur)) is True:
            ok = m in ("up", "both") and le(at_(o), r(item))
            d = "up"
            why = "an entry is exchanged with its parent although that is larger, or its children may be"
        else:
            ok = False
            for a in [cur] + [x for x in ch if D(x, cur)]:
                c = t.scale(a, 2)
                for i, j in ((1, 2), (2, 1)):
                    sib = t.add(c, I(j))
                    # terms for the same positions
                    for b in [o] + [x for x in ch if D(x, o)]:
                        ok = ok or D(b, t.add(c, I(i))) and m in ("down", "both") and \
                            le(r(item), at_(b)) and \
                            (s.decide(t.le(t.length(h0), sib)) is True or le(at_(sib), at_(b)))
            d = "down"
            why = "an entry is exchanged with an entry that is not its parent or larger child"
        if DEBUG and not ok:
            print("ORDER", w, m, d, "cur", cur, "o", o, "item", item, "r", r(item), at_(o), [str(f)[:200] for f in s.facts if "rank" in str(f)], [str(l)[:200] for l in s.lins if "rank" in str(l)])
        if not ok:
            self.bad(st, "order", why, w)
            return False
        self.set_mode(st, d)
        st.mem[CUR] = o
        return True

    # ---- the end
    def settle(self, eng, st, w):
        self.point(eng, st, w)
        m = self.mode(st)
        if m in (None, "bad", "both"):
            return m != "bad"
        h, p, v = fields(eng, st, self.base, self.hp)
        cur, item = st.mem[CUR], st.mem[ITEM]
        s = st.copy()
        r = lambda k: rank(t.sel(v, k, s.decide))
        le = lambda a, b: s.decide(t.le(a, b)) is True
        same(s, r(item), r(t.sel(h, cur, s.decide)))
        n = t.length(h)
        if m == "up":
            ok = le(cur, ZERO) or le(r(item), r(t.sel(h, t.shr(t.sub(cur, ONE), ONE), s.decide)))
        elif m == "down":
            ok = all(le(n, j) or le(r(t.sel(h, j, s.decide)), r(item))
                     for j in (t.add(t.scale(cur, 2), ONE), t.add(t.scale(cur, 2), I(2))))
        else:
            ok = False
        if not ok:
            self.bad(st, "order", "an entry may be out of order with its parent or children in "
                     "the end", w)
        return ok

    # ---- loop invariants
    def on_head(self, eng, fr, h, head, phis, states):
        cur = head.mem.get(CUR)
        if cur is not None and cur.op == "phi":
            # the cursor goes by the name of a variable of the program that follows it
            for loc, ph in sorted(phis.items(), key=lambda x: str(x[0])):
                if loc[0][0] != "L" or ph is cur:
                    continue
                vals = [eng.valat(s, loc) for s in states]
                if all(v is not None and v.op not in ("st", "en", "ref") and
                       s.decide(t.eq(v, s.mem[CUR])) is True for s, v in zip(states, vals)):
                    head.mem[CUR] = ph
                    break
        if AH in head.mem:
            hp, pp, vv = fields(eng, head, self.base, self.hp)
            head.mem.update({AH: hp, AP: pp, AV: vv})

    def loop_candidates(self, eng, fr, h, head, phis, states):
        if AH not in head.mem:
            return []
        hp, out = head.mem[AH], []
        cur = head.mem.get(CUR)
        if cur is not None:
            for loc, ph in phis.items():
                if loc[0][0] == "L" and loc[0] != CUR:
                    out.append(t.eq(cur, ph))
            for b, x in head.mem.items():
                if b[0] == "L" and x.op not in ("ref", "st", "en"):
                    out.append(t.eq(cur, x))
            item = head.mem[ITEM]
            out.append(t.eq(t.sel(hp, cur), item))
            out.append(t.lt(cur, t.length(hp)))
        for s in states:
            out.append(t.eq(t.length(hp), t.length(fields(eng, s, self.base, self.hp)[0])))
        return out


class Sizes(AllRule):
    """Resizing, with the single operations as contracts on a ghost array of who is enqueued."""

    def __init__(self, cx, hp, base, roles, path):
        self.cx, self.hp, self.base, self.roles, self.path = cx, hp, base, roles, path
        self.preds = {"OFF": Is(ZERO), "ON": Is(ONE), "OLD": Old()}
        self.own = False
        self.lens = []

    def on_call(self, eng, st, c):
        role = self.roles.get(c.path)
        if role is None or not c.args or eng.deref(st, c.args[0])[0] != self.base:
            return None
        k = c.args[1]
        if eng.ty(c.argtys[1])["k"] != "int":
            k = mk("key", k)
        if role == "ask":
            return [(st, t.eq(t.sel(st.mem[STATUS], k, st.decide), ONE))]
        h, p, v = fields(eng, st, self.base, self.hp)
        w = at(c.fr, c.span)
        ok = st.decide(t.lt(k, t.length(p))) is True and st.decide(t.lt(k, t.length(v))) is True
        self.cx.ob(ok, "c22:resize:range", "a key outside of the tables is added or removed", w)
        self.own = True
        eng.wr(st, self.base, (("f", self.hp.h, self.hp.n),), eng.fresh(c, "heap"), c.fr, c.span)
        self.own = False
        st.mem[STATUS] = t.store(st.mem[STATUS], k, ONE if role == "add" else ZERO)
        return [(st, t.UNIT)]

    def on_write(self, eng, st, base, path, new, fr, span):
        if base == self.base and (not path or path[0][1] == self.hp.h) and not self.own:
            self.cx.ob(False, "c22:resize:heap", "entries change while resizing", at(fr, span))

    def loop_alls(self, eng, fr, h, head, phis, states, sigma):
        out = []
        a = head.mem.get(STATUS)
        if a is None:
            return out
        for ph, e in int_bounds(head, phis, states, sigma):
            for x, y in ((e, ph), (ph, e)):
                out += [mk("all", a, x, y, n, ZERO) for n in ("OFF", "ON")]
        for n in self.lens:
            out.append(mk("all", a, ZERO, n, "OLD", mk("sym", "status")))
            for ph, e in int_bounds(head, phis, states, sigma):
                for x, y in ((n, ph), (ph, n)):
                    out += [mk("all", a, x, y, z, ZERO) for z in ("OFF", "ON")]
        return out


class Is(Pred):
    def __init__(self, x):
        self.x = x

    def check(self, st, a, i, v):
        x = t.sel(a, i, st.decide)
        return st.decide(t.eq(x, self.x)) is True or \
            st.decide(t.eq(x, t.sub(ONE, self.x))) is False


class Old(Pred):
    def check(self, st, a, i, v):
        x = t.sel(a, i, st.decide)
        return st.decide(t.eq(x, t.sel(v, i, st.decide))) is True


class Applied(Pred):
    def check(self, st, a, i, v):
        x = t.sel(a, i, st.decide)
        if x.op != "app":
            return False
        x, y = x.args[0], t.sel(v, i, st.decide)
        if x is y:
            return True
        return x.op == "sel" and x.args[1] is i and any(
            val and p == "OLD" and b is x.args[0] and w is v and st.decide(t.le(lo, i)) is True
            and st.decide(t.lt(i, hi)) is True for (b, lo, hi, p, w), val in st.alls.items())


class Apply(AllRule):
    def __init__(self, cx, hp, base):
        self.cx, self.hp, self.base = cx, hp, base
        self.preds = {"APPLIED": Applied(), "OLD": Old()}

    def on_call(self, eng, st, c):
        return applied(eng, st, c)

    def loop_alls(self, eng, fr, h, head, phis, states, sigma):
        v = fields(eng, head, self.base, self.hp)[2]
        v0 = fields(eng, State(), self.base, self.hp)[2]
        out = []
        n = t.length(v0)
        for ph, e in int_bounds(head, phis, states, sigma):
            for x, y in ((e, ph), (ZERO, ph), (ph, e), (ph, n)):
                out += [mk("all", v, x, y, z, v0) for z in ("APPLIED", "OLD")]
        return out


def applied(eng, st, c):
    """The given function is applied to a value."""
    if c.path.startswith("std::ops::Fn") and "::call" in c.path and len(c.args) == 2:
        x = c.args[1]
        x = t.fld(x, 0, 1)
        if x.op == "ref":
            b, p = eng.deref(st, x)
            eng.wr(st, b, p, mk("app", eng.rd(st, b, p)), c.fr, c.span)
            return [(st, t.UNIT)]
    return None


STATUS = ("G", "status")


def run(cx):
    hp = Heap(cx)
    cx.ob(hp.ok, "c22:heap", "the heap is not recognised")
    if not hp.ok:
        return
    seen, done, roles = set(), set(), {}
    for path, f, key in hp.methods():
        name = path.rsplit("::", 1)[-1]
        ins = f.get("inputs") or [""]
        if key is None:
            continue
        if name in OPS and ins[0].startswith("&"):
            seen.add(name)
            done.add(path)
            OPS[name](cx, hp, path, f, key)
            roles[path] = {"enqueue": "add", "dequeue": "remove", "is_enqueued": "ask"}.get(name)
        elif not f["pub"] and len(ins) == 2 and ins[0].startswith("&mut") and ins[1] == "usize":
            for role, g in (("add", enqueue), ("remove", dequeue)):
                if not g(Quiet(cx), hp, path, f, key):
                    roles[path] = role
    for path, f, key in hp.methods():
        name = path.rsplit("::", 1)[-1]
        if key is not None and name in ("resize", "resize_enqueued"):
            seen.add(name)
            done.add(path)
            resize(cx, hp, path, f, key, roles, name == "resize_enqueued")
        elif key is not None and name == "apply_monotone":
            seen.add(name)
            done.add(path)
            monotone(cx, hp, path, f, key)
        elif key is not None and name in ("len", "index", "default"):
            seen.add(name)
            done.add(path)
            simple(cx, hp, path, f, key, name)
    want = set(OPS) | {"resize", "resize_enqueued", "apply_monotone", "len", "index", "default"}
    cx.ob(seen == want, "c22:methods", "not all operations of the heap are there: %s" %
          ", ".join(sorted(want - seen)))
    cm = scan.callmap(cx.lib)
    for i in (hp.h, hp.p, hp.v):
        x = cx.lib.types[hp.ty]["variants"][0]["fields"][i]
        cx.ob(not x["pub"], "c22:public", "the field %s is public" % x["name"])
        for p in sorted(c34.writers(cx, HEAP, x["name"])):
            bad = scan.only_from(cm, p, done)
            cx.ob(not bad, "c22:writer:%s:%s" % (x["name"], p), "%s of the heap is changed in %s" % (
                x["name"], p), cx.where(p))


class Quiet(object):
    """Records nothing."""

    def __init__(self, cx):
        self.cx = cx
        self.failed = False
        self.shared = dict(cx.shared, violations={}, obligations={})

    def __getattr__(self, n):
        return getattr(self.cx, n)

    def ob(self, ok, key, msg, where=None):
        if not ok:
            self.failed = True
        return ok

    def engine(self, *a, **k):
        e = self.cx.engine(*a, **k)
        e.reports = {}
        return e


def analyse(cx, hp, path, key, root=False):
    base = P(mk("sym", "a0"))
    rule = Watch(cx, hp, base, path)
    e = cx.engine(rule, {})
    st = State()
    if root:
        # the invariant for the first and the last entry: by induction along the parents, the
        # first one is the largest
        h, p, v = fields(e, st, base, hp)
        first, last = t.sel(h, ZERO), t.sel(h, t.sub(t.length(h), ONE))
        st.assume(t.eq(t.sel(p, first), ZERO))
        st.assume(t.le(rank(t.sel(v, last)), rank(t.sel(v, first))))
    rule.begin(e, st)
    e, a, outs = cx.run(key, st=st, rule=rule, eng=e)
    h0, p0, v0 = fields(e, State(), base, hp)
    done = []
    for s, r in outs:
        if rule.settle(e, s, cx.where(path)):
            done.append((s, r))
    return rule, e, a, done, h0, p0, v0


def keyarg(cx, key, a):
    ty = cx.params(key)[1]
    return a[1] if ty == "usize" else mk("key", a[1])


def enqueue(cx, hp, path, f, key):
    rule, e, a, outs, h0, p0, v0 = analyse(cx, hp, path, key)
    k = keyarg(cx, key, a)
    for s, r in outs:
        on = s.decide(t.lt(t.sel(p0, k), t.length(h0)))
        ev = events(s, "added")
        ok = on is not None and not events(s, "removed") and (
            not ev if on else len(ev) == 1 and s.decide(t.eq(ev[0].args[1], k)) is True)
        cx.ob(ok, "c22:enqueue", "enqueue does not add exactly the given key when it is absent",
              cx.where(path))
    return getattr(cx, "failed", None)


def dequeue(cx, hp, path, f, key):
    rule, e, a, outs, h0, p0, v0 = analyse(cx, hp, path, key)
    k = keyarg(cx, key, a)
    for s, r in outs:
        on = s.decide(t.lt(t.sel(p0, k), t.length(h0)))
        ev = events(s, "removed")
        if on:
            s = rule.known(s, h0, p0, [], [k]) or s
        ok = on is not None and not events(s, "added") and (
            not ev if not on else len(ev) == 1 and s.decide(t.eq(ev[0].args[1], k)) is True)
        cx.ob(ok, "c22:dequeue", "dequeue does not remove exactly the given key when it is enqueued",
              cx.where(path))
    return getattr(cx, "failed", None)


def pop_max(cx, hp, path, f, key):
    rule, e, a, outs, h0, p0, v0 = analyse(cx, hp, path, key, True)
    for s, r in outs:
        none = s.decide(t.eq(t.disc(r), ZERO)) is True
        ev = events(s, "removed")
        if none:
            ok = not ev and s.decide(t.eq(t.length(h0), ZERO)) is True
        else:
            first = t.sel(h0, ZERO)
            v = t.vfld(r, 1, 0)
            ok = len(ev) == 1 and v.op == "keyof" and s.decide(t.eq(v.args[0], first)) is True \
                and s.decide(t.eq(ev[0].args[1], first)) is True
        cx.ob(ok, "c22:pop", "pop_max does not remove and return the first entry, or nothing only when "
              "the heap is empty", cx.where(path))


def increase(cx, hp, path, f, key):
    rule, e, a, outs, h0, p0, v0 = analyse(cx, hp, path, key)
    k = keyarg(cx, key, a)
    for s, r in outs:
        v1 = fields(e, s, rule.base, hp)[2]
        cx.ob(not events(s, "added") and not events(s, "removed"), "c22:increase",
              "increase adds or removes a key", cx.where(path))
        cx.ob(t.sel(v1, k, s.decide) is mk("app", t.sel(v0, k)), "c22:increase:value",
              "the function is not applied to the value of the given key once", cx.where(path))


def is_enqueued(cx, hp, path, f, key):
    e, a, outs = cx.run(key, rule=Rule(), pr={})
    base = P(mk("sym", "a0"))
    h0, p0, v0 = fields(e, State(), base, hp)
    want = t.lt(t.sel(p0, a[1]), t.length(h0))
    for s, r in outs:
        d, q = s.decide(r), s.decide(want)
        cx.ob(r is want or d is not None and d == q, "c22:is_enqueued", "is_enqueued does not tell "
              "whether the position of the key is one of the heap", cx.where(path))


def resize(cx, hp, path, f, key, roles, on):
    for case in (t.lt, t.eq, lambda a, b: t.lt(b, a)):
        resized(cx, hp, path, f, key, roles, on, case)


def resized(cx, hp, path, f, key, roles, on, case):
    base = P(mk("sym", "a0"))
    rule = Sizes(cx, hp, base, roles, path)
    e = cx.engine(rule, {})
    st = State()
    st.mem[STATUS] = mk("sym", "status")
    st.preds = rule.preds
    h0, p0, v0 = fields(e, st, base, hp)
    st.assume(t.eq(t.length(p0), t.length(v0)))
    n0 = t.length(v0)
    rule.lens = [n0, mk("sym", "a1")]
    for x in rule.lens:
        st.add_all(mk("sym", "status"), ZERO, x, "OLD", mk("sym", "status"))
    st.assume(case(mk("sym", "a1"), n0))
    smaller = st.decide(t.le(mk("sym", "a1"), n0)) is True
    e, a, outs = cx.run(key, st=st, rule=rule, eng=e)
    n, x = a[1], a[2]
    w = cx.where(path)
    for s, r in outs:
        h1, p1, v1 = fields(e, s, base, hp)
        cx.ob(s.decide(t.eq(t.length(p1), n)) is True and s.decide(t.eq(t.length(v1), n)) is True,
              "c22:resize:length", "a table does not have the new length", w)
        low = n if smaller else n0
        for nm, b, b0, new in (("values", v1, v0, x), ("positions", p1, p0, None)):
            s2 = s.copy()
            i = mk("sym", "some")
            s2.assume(t.le(ZERO, i))
            s2.assume(t.lt(i, low))
            cx.ob(s2.decide(t.eq(t.sel(b, i, s2.decide), t.sel(b0, i))) is True,
                  "c22:resize:kept:" + nm, "%s of remaining keys change" % nm, w)
            s2 = s.copy()
            if s2.assume(t.le(n0, i)) and s2.assume(t.lt(i, n)):
                y = t.sel(b, i, s2.decide)
                ok = y is new if new is not None else y.op == "i" and y.args[0] >= 2 ** 32 - 1
                cx.ob(ok, "c22:resize:new:" + nm, "%s of new keys are not initialised" % nm, w)
        a1 = s.mem[STATUS]
        ok = s.decide_all(mk("all", a1, ZERO, low, "OLD", mk("sym", "status"))) is True
        cx.ob(ok, "c22:resize:others", "a remaining key is added or removed", w)
        if smaller:
            ok = s.decide(t.eq(n, n0)) is True or \
                s.decide_all(mk("all", a1, n, n0, "OFF", ZERO)) is True
            cx.ob(ok, "c22:resize:removed", "keys that are cut off stay on the heap", w)
        elif on:
            ok = s.decide_all(mk("all", a1, n0, n, "ON", ZERO)) is True
            cx.ob(ok, "c22:resize:enqueued", "new keys are not enqueued", w)
        else:
            cx.ob(a1 is mk("sym", "status") or s.decide_all(
                mk("all", a1, n0, n, "OLD", mk("sym", "status"))) is True, "c22:resize:idle",
                "new keys are enqueued", w)


def monotone(cx, hp, path, f, key):
    base = P(mk("sym", "a0"))
    rule = Apply(cx, hp, base)
    st = State()
    st.preds = rule.preds
    e = cx.engine(rule, {})
    h0, p0, v0 = fields(e, State(), base, hp)
    st.add_all(v0, ZERO, t.length(v0), "OLD", v0)
    e, a, outs = cx.run(key, st=st, rule=rule, eng=e)
    for s, r in outs:
        h1, p1, v1 = fields(e, s, base, hp)
        cx.ob(h1 is h0 and p1 is p0, "c22:monotone:heap", "apply_monotone changes entries",
              cx.where(path))
        ok = s.decide(t.eq(t.length(v1), t.length(v0))) is True and \
            s.decide_all(mk("all", v1, ZERO, t.length(v0), "APPLIED", v0)) is True
        cx.ob(ok, "c22:monotone:all", "apply_monotone does not change every value by the "
              "given function", cx.where(path))


def simple(cx, hp, path, f, key, name):
    rule = Watch(cx, hp, P(mk("sym", "a0")), path)
    e = cx.engine(rule, {})
    e, a, outs = cx.run(key, rule=rule, eng=e)
    w = cx.where(path)
    for s, r in outs:
        if name == "default":
            xs = [t.fld(r, i, hp.n) for i in (hp.h, hp.p, hp.v)]
            cx.ob(all(t.length(x) is ZERO for x in xs), "c22:default", "a new heap is not empty", w)
            continue
        h0, p0, v0 = fields(e, State(), rule.base, hp)
        if name == "len":
            cx.ob(s.decide(t.eq(r, t.length(v0))) is True, "c22:len", "len is not the number of values",
                  w)
        else:
            x = e.read(s, r)
            cx.ob(s.same(x, t.sel(v0, mk("key", a[1]), s.decide)), "c22:index", "indexing does "
                  "not yield the value of the key", w)


OPS = {"enqueue": enqueue, "dequeue": dequeue, "pop_max": pop_max, "increase": increase,
       "is_enqueued": is_enqueued}
