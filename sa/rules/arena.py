"""The layout of clause storage, shared by the checks of its own code (C15, C16, C37, C38).

Storage is a vector of words; a clause with reference c has its header in words c..c+H, its length
with the top bit set in word c+H and its literals behind it."""
from .common import *
from .. import bits as B
from .. import models
from ..state import State
from . import scan

ARENA = "starlit::clause_arena::ClauseArena"
REF = "starlit::clause_arena::ClauseRef"
WORD = "starlit::clause_arena::HeaderWord"
MARK = 1 << 31
MASK = MARK - 1


class Arena(object):
    def __init__(self, cx):
        self.cx = cx
        tys = [ty for ty, d in cx.lib.types.items() if d["k"] == "adt" and d.get("path") == ARENA
               and (cx.lib.types.get(d["args"][0]) or {}).get("size")]
        tys = [ty for ty in tys if any(f["ty"] == "std::vec::Vec<u32>"
                                       for f in cx.lib.types[ty]["variants"][0]["fields"])]
        self.ok = len(tys) == 1
        if not self.ok:
            return
        self.ty = tys[0]
        d = cx.lib.types[self.ty]
        self.header = d["args"][0]
        self.H = cx.lib.types[self.header]["size"] // 4
        fs = d["variants"][0]["fields"]
        self.n = len(fs)
        self.buf = [i for i, f in enumerate(fs) if f["ty"] == "std::vec::Vec<u32>"]
        self.cnt = [i for i, f in enumerate(fs) if f["ty"] == "usize"]
        self.ok = len(self.buf) == 1
        self.buf = self.buf[0]
        self.cnt = self.cnt[0] if len(self.cnt) == 1 else None

    def methods(self):
        """(path, record, key) of the public safe functions of the storage."""
        lib = self.cx.lib
        for p, f in sorted(lib.fns.items()):
            if not (f.get("self_ty") or "").startswith(ARENA + "<") or f.get("impl_trait"):
                continue
            ks = [k for k in lib.find(p) or [] if "<" + self.header in k]
            yield p, f, ks[0] if ks else None

    def words(self, eng, v):
        return t.fld(v, self.buf, self.n)

    def garbage(self, eng, v):
        return t.fld(v, self.cnt, self.n)

    def marked(self, st, w):
        """Whether a word is known to carry (or not to carry) the marker."""
        m = t.band(w, I(MARK))
        for c, pos in ((t.eq(m, ZERO), False), (t.eq(m, I(MARK)), True),
                       (t.lt(w, I(MARK)), False), (t.eq(t.shr(w, I(31)), ZERO), False)):
            d = st.decide(c)
            if d is not None:
                return d is pos
        b = B.bits(st, w, 32)[31]
        return bool(b) if b in (0, 1) else None

    def clen(self, words, c, decide=None):
        """The length of a clause."""
        return t.band(t.sel(words, t.add(c, I(self.H)), decide), I(MASK))

    def establish(self, st, words, c):
        """The state with what holds for a valid clause, or None if c is not known to be valid."""
        L = t.add(c, I(self.H))
        if st.decide(t.lt(L, t.length(words))) is not True or st.decide(t.le(ZERO, c)) is False:
            return None
        w = t.sel(words, L, st.decide)
        if self.marked(st, w) is not True:
            return None
        s = st.copy()
        self.valid(s, words, c)
        return s

    def valid(self, s, words, c):
        """Assumes that a clause is stored at c."""
        L = t.add(c, I(self.H))
        w = t.sel(words, L, s.decide)
        n = t.band(w, I(MASK))
        s.assume(t.lt(L, t.length(words)))
        s.assume(t.eq(t.add(n, I(MARK)), w))
        s.assume(t.eq(t.band(w, I(MARK)), I(MARK)))
        s.assume(t.le(t.add(t.add(L, ONE), n), t.length(words)))

    def region(self, st, words, lo, n):
        """The clause and part ("header", "length", "literals") that n words from lo belong to."""
        H = I(self.H)
        for c in (lo, t.sub(lo, H), t.sub(lo, t.add(H, ONE))):
            s = self.establish(st, words, c)
            if s is None:
                continue
            L = t.add(c, H)
            hi = t.add(lo, n)
            if s.decide(t.le(c, lo)) is True and s.decide(t.le(hi, L)) is True:
                return c, "header", s
            if s.same(lo, L) and s.same(hi, t.add(L, ONE)):
                return c, "length", s
            if s.decide(t.le(t.add(L, ONE), lo)) is True and \
                    s.decide(t.le(hi, t.add(t.add(L, ONE), t.band(t.sel(words, L, s.decide),
                                                                 I(MASK))))) is True:
                return c, "literals", s
        return None

    def size(self, ty):
        """Words taken by a value of a type."""
        d = self.cx.lib.types.get(ty) or {}
        if d.get("k") == "array":
            pass
        return d["size"] // 4 if d.get("size") else None


class Watch(Rule):
    """Every access to the words of the storage behind self."""

    def __init__(self, cx, ar, name):
        self.cx, self.ar, self.name = cx, ar, name
        self.base = None

    def mine(self, base, path):
        """The part of a path below the words."""
        if base == self.base and path and path[0][0] == "f" and path[0][1] == self.ar.buf:
            return path[1:]
        return None

    def access(self, eng, st, fr, base, path, lo, n, what, span):
        rest = self.mine(base, path)
        if rest is None:
            return
        self.check(eng, st, fr, lo, n, what, span)

    def check(self, eng, st, fr, lo, n, what, span):
        pass

    def ptr(self, eng, st, fr, ptr, n, what, span):
        if ptr.op != "ref":
            return
        base, path = eng.deref(st, ptr)
        if self.mine(base, path) is None:
            return
        rest = path[1:]
        if rest and rest[-1][0] == "x" and len(rest) == 1:
            self.check(eng, st, fr, rest[0][1], n, what, span)
        elif rest and rest[0][0] == "s":
            self.check(eng, st, fr, rest[0][1], n, what, span)

    def on_ptr(self, eng, st, c, kind, ptr, n):
        k = 0
        for x, ty in zip(c.args, c.argtys):
            if x is ptr and eng.ty(ty)["k"] in ("ptr", "ref"):
                k = self.ar.size(eng.ty(ty)["ty"]) or 1
        self.ptr(eng, st, c.fr, ptr, t.scale(n, k or 1), kind, c.span)

    def on_raw(self, eng, st, fr, ptr, ty):
        k = self.ar.size(ty)
        if k is not None:
            self.ptr(eng, st, fr, ptr, I(k), "use", None)

    def on_unchecked(self, eng, st, c, base, path, lo, hi):
        if self.mine(base, path) is None:
            return
        rest = path[1:]
        if rest and rest[0][0] == "s":
            # within a part that was taken before
            off = rest[0][1]
            lo, hi = t.add(off, lo), t.add(off, hi)
        if st.same(hi, t.length(eng.words)):
            return                  # the rest of the vector, of which a part is taken next
        self.check(eng, st, c.fr, lo, t.sub(hi, lo), "use", c.span)


def refs(v, out):
    """References within a value."""
    if v.op == "ref":
        out.append(v)
    elif v.op in ("st", "en"):
        for x in v.args:
            if isinstance(x, t.T):
                refs(x, out)
    return out


def word(s, a, i):
    """A word of the storage, looking through everything that was done to the vector."""
    D = s.decide
    while True:
        if a.op == "setlen" and D(t.lt(i, a.args[1])) is True:
            a = a.args[0]
        elif a.op == "splice":
            lo, src = a.args[1], a.args[2]
            hi = t.add(lo, t.length(src))
            if D(t.lt(i, lo)) is True or D(t.le(hi, i)) is True:
                a = a.args[0]
            elif D(t.le(lo, i)) is True and D(t.lt(i, hi)) is True:
                a, i = src, t.sub(i, lo)
            else:
                break
        elif a.op in ("push", "cat"):
            n = t.length(a.args[0])
            if D(t.lt(i, n)) is True:
                a = a.args[0]
            elif a.op == "push" and s.same(i, n):
                return a.args[1]
            elif a.op == "cat" and D(t.le(n, i)) is True:
                a, i = a.args[1], t.sub(i, n)
            else:
                break
        elif a.op == "store" and D(t.eq(a.args[1], i)) is False:
            a = a.args[0]
        elif a.op == "store" and s.same(a.args[1], i):
            return a.args[2]
        else:
            break
    return t.sel(a, i, D)


def count(a):
    """The number of words of the storage."""
    return a.args[1] if a.op == "setlen" else t.length(a)
