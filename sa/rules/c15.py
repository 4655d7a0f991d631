"""Clause storage memory safety, by abstract interpretation of every safe operation.

Each public safe function of clause storage is analysed, with what it calls, from an arbitrary state
and arbitrary arguments, in both build profiles.  Every access that no bounds check guards (unchecked
indexing, raw pointer reads, writes and dereferences) and every reference that is handed out must lie
within the header, the length word or the literals of a clause whose length word has been looked up
within bounds and found marked on that path, or, when adding, within the room that was reserved; the
length of the vector is only ever raised over words that have been written."""
from .arena import *

RULE = "clause established on the path to every unguarded access; exact extents"
ASSUMES = ["a marked word is a length word whose clause lies within the storage (C16)"]
BOTH_PROFILES = True


class Safe(Watch):
    def check(self, eng, st, fr, lo, n, what, span):
        words = eng.rd(st, self.base, (("f", self.ar.buf, self.ar.n),))
        w = at(fr, span) if fr is not None else self.name
        hi = t.add(lo, n)
        if any(self.ar.region(st, x, lo, n) is not None for x in (words, eng.words)):
            self.cx.ob(True, "c15:access", "", w)
            return
        for m in [mk("room", None, t.length(eng.words), mk("cap", eng.words))] + events(st, "room"):
            if st.decide(t.le(m.args[1], lo)) is True and st.decide(t.le(hi, m.args[2])) is True:
                self.cx.ob(True, "c15:room", "", w)
                if what == "write":
                    event(st, "init", lo, hi)
                return
        self.cx.ob(False, "c15:access:" + self.name, "%s can %s words of the storage that are not "
                   "known to belong to a clause" % (self.name, {"use": "reach"}.get(what, what)), w)


def model(cx, ar, rule):
    pr = {}

    def mine(eng, st, x):
        b, p = eng.deref(st, x)
        return rule.mine(b, p) == ()

    def reserve(eng, st, c):
        if mine(eng, st, c.args[0]):
            n = t.length(eng.read(st, c.args[0]))
            event(st, "room", n, t.add(n, c.args[1]))
        return [(st, t.UNIT)]
    for k in ("reserve", "reserve_exact"):
        pr["std::vec::Vec::<T, A>::" + k] = reserve

    def capacity(eng, st, c):
        if not mine(eng, st, c.args[0]):
            return [(st, eng.fresh(c, "capacity"))]
        v = mk("cap", eng.read(st, c.args[0]))
        st.assume(t.le(t.length(v.args[0]), v))
        return [(st, v)]
    pr["std::vec::Vec::<T, A>::capacity"] = capacity

    def set_len(eng, st, c):
        if mine(eng, st, c.args[0]):
            old = eng.read(st, c.args[0])
            while old.op in ("store", "splice"):
                old = old.args[0]
            cur = t.length(old)
            todo = events(st, "init")
            if st.decide(t.le(c.args[1], cur)) is not True:
                while todo:
                    nxt = [m for m in todo if st.same(m.args[1], cur)]
                    if not nxt:
                        break
                    cur = nxt[0].args[2]
                    todo.remove(nxt[0])
                cx.ob(st.decide(t.le(c.args[1], cur)) is True, "c15:set_len:" + rule.name,
                      "%s can raise the length of the storage over words that were not written"
                      % rule.name, at(c.fr, c.span))
        return models.m_set_len(eng, st, c)
    pr["std::vec::Vec::<T, A>::set_len"] = set_len
    return pr


def run(cx):
    ar = Arena(cx)
    cx.ob(ar.ok, "c15:storage", "the clause storage is not recognised")
    if not ar.ok:
        return
    n = 0
    for path, f, key in ar.methods():
        if f["unsafe"] or not f["pub"]:
            continue
        if key is None:
            if any(REF in x for x in f.get("inputs") or ()):
                cx.ob(False, "c15:instance:" + path, "%s cannot be analysed" % path, cx.where(path))
            continue
        ps = cx.params(key)
        me = [i for i, ty in enumerate(ps) if ty.replace("&mut ", "&").lstrip("&") == ar.ty]
        if len(me) != 1:
            continue
        n += 1
        rule = Safe(cx, ar, path)
        rule.base = P(mk("sym", "a%d" % me[0]))
        st = State()
        before = t.fld(mk("pt", mk("sym", "a%d" % me[0])), ar.buf, ar.n)
        e = cx.engine(rule, model(cx, ar, rule))
        e.words = before
        e, a, outs = cx.run(key, st=st, rule=rule, eng=e)
        for s, r in outs:
            finish(cx, ar, rule, e, s, r, a, ps, path, before, f)
    cx.ob(n >= 8, "c15:methods", "only %d operations of the storage are recognised" % n)


def finish(cx, ar, rule, e, s, r, a, ps, path, before, f):
    w = cx.where(path)
    mut = False
    for x in refs(r, []):
        base, p = e.deref(s, x)
        rest = rule.mine(base, p)
        if rest is None:
            continue
        mut = True
        words = e.rd(s, base, p[:1])
        if len(rest) == 1 and rest[0][0] == "s":
            g = ar.region(s, words, rest[0][1], t.sub(rest[0][2], rest[0][1]))
            cx.ob(g is not None and g[1] == "literals", "c15:literals:" + path, "the literals that %s "
                  "returns are not within those of a clause found valid before" % path, w)
        elif len(rest) == 1 and rest[0][0] == "x":
            g = ar.region(s, words, rest[0][1], I(ar.H))
            cx.ob(g is not None and g[1] == "header", "c15:header:" + path, "the header that %s "
                  "returns is not that of a clause found valid before" % path, w)
        else:
            cx.ob(False, "c15:ref:" + path, "%s hands out a reference into the storage" % path, w)
    after = e.rd(s, rule.base, (("f", ar.buf, ar.n),))
    for i, ty in enumerate(ps):
        c = None
        if ty == REF:
            c = a[i]
        elif ty.startswith("&") and "Option<" + REF + ">" in ty:
            v = mk("pt", a[i])
            if s.decide(t.eq(t.disc(v), I(1))) is True:
                c = t.vfld(v, 1, 0)
        if c is not None and (mut or after is not before or f.get("output") not in ("bool",)):
            cx.ob(ar.establish(s, before, c) is not None, "c15:valid:" + path, "%s can return without "
                  "having found that the reference denotes a clause" % path, w)
