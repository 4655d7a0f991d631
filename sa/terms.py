"""Hash-consed symbolic values: the value domain of the abstract interpreter.

Integers are kept in linear normal form, bit operations on literal codes are normalised, arrays are
kept as chains of constructors.  Two values are known to be equal exactly if they are the same
object; everything else is decided from the facts of a state (see state.py).
"""
import itertools


class T(object):
    __slots__ = ("op", "args", "id", "_syms", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


_table = {}
_ids = itertools.count()


def mk(op, *args):
    key = (op,) + args
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = next(_ids)
        t._syms = None
        _table[key] = t
    return t


def I(n):
    return mk("i", n)


ZERO = I(0)
ONE = I(1)
TRUE = mk("bool", 1)
FALSE = mk("bool", 0)
UNIT = mk("st")
VNIL = mk("vnil")


def B(x):
    return TRUE if x else FALSE


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 9:
        return ".."
    o, a = t.op, t.args
    if o == "i":
        return str(a[0])
    if o == "bool":
        return "true" if a[0] else "false"
    if o == "lin":
        s = []
        for x, c in a[1]:
            s.append(("%+d*" % c if c not in (1, -1) else "+" if c == 1 else "-") + show(x, d + 1))
        if a[0]:
            s.append("%+d" % a[0])
        r = "".join(s)
        return "(" + (r[1:] if r.startswith("+") else r) + ")"
    if o == "le":
        return show(a[0], d + 1) + "<=0"
    if o == "eq":
        return show(a[0], d + 1) + "==0"
    if o == "sym":
        return "$" + str(a[0]) + ("" if len(a) < 2 else "@" + ".".join(str(x) for x in a[1:]))
    if o == "phi":
        return "phi(" + ",".join(show(x, d + 1) for x in a) + ")"
    if o == "fld":
        return show(a[0], d + 1) + "." + str(a[1])
    if o == "vfld":
        return show(a[0], d + 1) + "." + str(a[1]) + "v" + str(a[2])
    return o + "(" + ",".join(show(x, d + 1) for x in a) + ")"


LEAF = {"sym", "phi", "pt"}


def leaves(t):
    """The set of leaf symbols a value is built from."""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            r = frozenset()
            for x in t:
                if isinstance(x, (T, tuple)):
                    r |= leaves(x)
            return r
        return frozenset()
    r = t._syms
    if r is None:
        if t.op in ("sym", "phi"):
            r = frozenset((t,))
        else:
            r = frozenset()
            for x in t.args:
                if isinstance(x, (T, tuple)):
                    r |= leaves(x)
        t._syms = r
    return r


# ---------------------------------------------------------------- integers

def lin_parts(t):
    if t.op == "i":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def from_parts(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return I(c)
    # 2*shr(x,1) + and(x,1) == x
    for a in list(d):
        if a.op == "shr" and a.args[1] is ONE and a in d:
            p = mk("and1", a.args[0])
            k = d.get(p, 0)
            if k and d[a] == 2 * k:
                del d[a], d[p]
                c2, d2 = lin_parts(a.args[0])
                c += k * c2
                for x, y in d2.items():
                    d[x] = d.get(x, 0) + k * y
                return from_parts(c, d)
            if k and d[a] == -2 * k:
                # 2v + (1 - parity) == x ^ 1  (up to the constant)
                kk = -k
                y = bxor(a.args[0], ONE)
                if y.op == "xor":
                    del d[a], d[p]
                    d[y] = d.get(y, 0) + kk
                    return from_parts(c - kk, d)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def add(a, b, k=1):
    c1, d1 = lin_parts(a)
    c2, d2 = lin_parts(b)
    for x, v in d2.items():
        d1[x] = d1.get(x, 0) + k * v
    return from_parts(c1 + k * c2, d1)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, d = lin_parts(a)
    return from_parts(c * k, {x: v * k for x, v in d.items()})


def mul(a, b):
    if a.op == "i":
        return scale(b, a.args[0])
    if b.op == "i":
        return scale(a, b.args[0])
    if b.id < a.id:
        a, b = b, a
    return mk("mul", a, b)


def is01(t):
    if t.op == "i":
        return t.args[0] in (0, 1)
    if t.op in ("and1", "b2i"):
        return True
    if t.op == "lin":
        c, d = lin_parts(t)
        if c == 1 and len(d) == 1:
            (x, k), = d.items()
            return k == -1 and is01(x)
    return False


def split_even(t):
    """t = 2*h + r with r in {0,1}; None if unknown."""
    c, d = lin_parts(t)
    odd = {x: v for x, v in d.items() if v % 2}
    even = {x: v // 2 for x, v in d.items() if v % 2 == 0}
    if not odd:
        return from_parts(c // 2, even), I(c % 2)
    if len(odd) == 1:
        (x, v), = odd.items()
        if is01(x):
            if v == 1 and c % 2 == 0:
                return from_parts(c // 2, even), x
            if v == -1 and c % 2 == 1:
                return from_parts(c // 2, even), sub(ONE, x)
    return None


def shr(a, b):
    if b.op == "i":
        k = b.args[0]
        if k == 0:
            return a
        if a.op == "i":
            return I(a.args[0] >> k)
        h = split_even(a)
        if h is not None:
            return shr(h[0], I(k - 1))
        if a.op == "xor" and a.args[1] < (1 << k):
            xs = a.args[0]
            if len(xs) == 1:
                return shr(xs[0], b)
        if a.op == "shr" and a.args[1].op == "i":
            return mk("shr", a.args[0], I(k + a.args[1].args[0]))
    return mk("shr", a, b)


def shl(a, b):
    if b.op == "i":
        return scale(a, 1 << b.args[0])
    return mk("shl", a, b)


def band(a, b):
    if a.op == "i" and b.op == "i":
        return I(a.args[0] & b.args[0])
    if a.op == "i":
        a, b = b, a
    if b is ZERO:
        return ZERO
    if b is ONE:
        if is01(a):
            return a
        h = split_even(a)
        if h is not None:
            return h[1]
        if a.op == "xor" and len(a.args[0]) == 1:
            p = band(a.args[0][0], ONE)
            return sub(ONE, p) if a.args[1] & 1 else p
        return mk("and1", a)
    if a is b:
        return a
    if b.op != "i" and b.id < a.id:
        a, b = b, a
    return mk("and", a, b)


def bor(a, b):
    if a.op == "i" and b.op == "i":
        return I(a.args[0] | b.args[0])
    if a.op == "i":
        a, b = b, a
    if b is ZERO or a is b:
        return a
    for x, y in ((a, b), (b, a)):
        if is01(y):
            h = split_even(x)
            if h is not None and h[1] is ZERO:
                return add(x, y)
    if b.id < a.id:
        a, b = b, a
    return mk("or", a, b)


def bxor(a, b):
    if a.op == "i" and b.op == "i":
        return I(a.args[0] ^ b.args[0])
    for x, y in ((a, b), (b, a)):
        if is01(y) and not (y is ZERO) and x.op in ("lin", "i"):
            h = split_even(x)
            if h is not None:
                r = h[1]
                if y is ONE:
                    return add(scale(h[0], 2), sub(ONE, r))
                if r is ZERO:
                    return add(x, y)
                if r is ONE:
                    return add(scale(h[0], 2), sub(ONE, y))
                if r is y:
                    return scale(h[0], 2)
        if y is ONE and is01(x):
            return sub(ONE, x)
    cnt = {}
    c = 0
    for t in (a, b):
        if t.op == "i":
            c ^= t.args[0]
        elif t.op == "xor":
            c ^= t.args[1]
            for x in t.args[0]:
                cnt[x] = cnt.get(x, 0) ^ 1
        elif t.op == "lin" and split_even(t) and split_even(t)[1] is ONE:
            c ^= 1
            x = sub(t, ONE)
            cnt[x] = cnt.get(x, 0) ^ 1
        else:
            cnt[t] = cnt.get(t, 0) ^ 1
    xs = tuple(sorted((x for x, v in cnt.items() if v), key=lambda x: x.id))
    if not xs:
        return I(c)
    if len(xs) == 1 and c == 0:
        return xs[0]
    if len(xs) == 1 and c == 1 and xs[0].op == "lin" and split_even(xs[0]):
        return bxor(xs[0], ONE)
    return mk("xor", xs, c)


def trunc(a, bits):
    if a.op == "i":
        return I(a.args[0] & ((1 << bits) - 1))
    if a.op == "tr" and a.args[1] <= bits:
        return a
    if a.op == "tr":
        return trunc(a.args[0], bits)
    if a.op == "xor":
        r = I(a.args[1] & ((1 << bits) - 1))
        for x in a.args[0]:
            r = bxor(r, trunc(x, bits))
        return r
    if a.op == "lin":
        c, d = lin_parts(a)
        m = 1 << bits
        c2 = c % m
        d2 = {x: (v % m if v >= m or v <= -m else v) for x, v in d.items()}
        d2 = {x: v for x, v in d2.items() if v}
        b = from_parts(c2, d2)
        if b is not a:
            return trunc(b, bits)
        h = split_even(a)
        if h is not None and h[1] is ONE:
            return bxor(trunc(sub(a, ONE), bits), ONE)
    return mk("tr", a, bits)


def udiv(a, b):
    if b is ONE:
        return a
    if a.op == "i" and b.op == "i" and b.args[0]:
        return I(a.args[0] // b.args[0])
    if b.op == "i" and b.args[0] > 1 and b.args[0] & (b.args[0] - 1) == 0:
        return shr(a, I(b.args[0].bit_length() - 1))
    return mk("div", a, b)


def urem(a, b):
    if a.op == "i" and b.op == "i" and b.args[0]:
        return I(a.args[0] % b.args[0])
    if b.op == "i" and b.args[0] > 1 and b.args[0] & (b.args[0] - 1) == 0:
        return band(a, I(b.args[0] - 1))
    return mk("rem", a, b)


def _gcd_norm(c, d, le):
    from math import gcd
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        if le:
            # c + g*x <= 0  <=>  ceil(c/g) + x <= 0
            c = -((-c) // g)
        else:
            if c % g:
                return None
            c //= g
        d = {x: v // g for x, v in d.items()}
    return c, d


def le0(t):
    """t <= 0"""
    c, d = lin_parts(t)
    if not d:
        return B(c <= 0)
    c, d = _gcd_norm(c, d, True)
    return mk("le", from_parts(c, d))


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), ONE))


def eq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "xor" or (x.op == "tr" and y.op in ("tr", "xor")):
            s = bxor(a, b)
            if s.op == "i":
                return B(s.args[0] == 0)
            if s.op == "xor" and s.args[1] == 1 and len(s.args[0]) == 2:
                return mk("eqx", s.args[0], 1)
            if s.op == "xor" and not (len(s.args[0]) == 2 and s.args[1] == 0):
                return mk("eqx", s.args[0], s.args[1])
            if s.op == "xor":
                return eq_plain(s.args[0][0], s.args[0][1])
            return eq_plain(s, ZERO)
    return eq_plain(a, b)


def eq_plain(a, b):
    c, d = lin_parts(sub(a, b))
    if not d:
        return B(c == 0)
    r = _gcd_norm(c, d, False)
    if r is None:
        return FALSE
    c, d = r
    first = min(d, key=lambda x: x.id)
    if d[first] < 0:
        c, d = -c, {x: -v for x, v in d.items()}
    return mk("eq", from_parts(c, d))


def eqo(a, b):
    """Equality of non-integers (pointers, opaque values)."""
    if a is b:
        return TRUE
    if b.id < a.id:
        a, b = b, a
    return mk("eqo", a, b)


def notb(b):
    if b.op == "bool":
        return B(not b.args[0])
    if b.op == "not":
        return b.args[0]
    if b.op == "le":
        return le0(sub(ONE, b.args[0]))
    return mk("not", b)


def and_b(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return mk("andb", a, b)


def or_b(a, b):
    return notb(and_b(notb(a), notb(b)))


def xor_b(a, b):
    if a.op == "bool":
        return notb(b) if a.args[0] else b
    if b.op == "bool":
        return notb(a) if b.args[0] else a
    return mk("xorb", *sorted((a, b), key=lambda x: x.id))


def b2i(b):
    if b.op == "bool":
        return I(b.args[0])
    if b.op == "not":
        return sub(ONE, b2i(b.args[0]))
    if b.op == "eq":
        c, d = lin_parts(b.args[0])
        if len(d) == 1:
            (x, k), = d.items()
            if is01(x):
                if c == 0:
                    return sub(ONE, x)
                if c == -k:
                    return x
    return mk("b2i", b)


# ---------------------------------------------------------------- structures

def st(*fields):
    if fields:
        f0 = fields[0]
        if f0.op == "fld" and f0.args[1] == 0 and f0.args[2] == len(fields):
            x = f0.args[0]
            if all(f.op == "fld" and f.args[0] is x and f.args[1] == i
                   for i, f in enumerate(fields)):
                return x
    return mk("st", *fields)


def fld(x, i, n):
    if x.op == "st":
        if i < len(x.args):
            return x.args[i]
        return mk("fld", x, i, n)
    return mk("fld", x, i, n)


def en(variant, *fields):
    return mk("en", variant, *fields)


def vfld(x, v, i):
    if x.op == "en":
        if x.args[0] == v and i + 1 < len(x.args):
            return x.args[1 + i]
    return mk("vfld", x, v, i)


def disc(x):
    if x.op == "en":
        return I(x.args[0])
    return mk("disc", x)


# ---------------------------------------------------------------- arrays

def length(a):
    o = a.op
    if o == "vnil":
        return ZERO
    if o == "arr":
        return I(len(a.args))
    if o == "push":
        return add(length(a.args[0]), ONE)
    if o in ("store", "rev", "perm", "swp", "lits"):
        return length(a.args[0])
    if o == "sub":
        return sub(a.args[2], a.args[1])
    if o == "cat":
        return add(length(a.args[0]), length(a.args[1]))
    if o in ("resize", "fill"):
        return a.args[1]
    if o == "splice":
        return length(a.args[0])
    return mk("len", a)


def push(a, x):
    if a.op == "vnil":
        return mk("arr", x)
    if a.op == "arr":
        return mk("arr", *(a.args + (x,)))
    return mk("push", a, x)


def subarr(a, lo, hi):
    if lo is ZERO and hi is length(a):
        return a
    if lo is hi:
        return VNIL
    if a.op == "sub":
        return subarr(a.args[0], add(a.args[1], lo), add(a.args[1], hi))
    if a.op == "arr" and lo.op == "i" and hi.op == "i" and hi.args[0] <= len(a.args):
        es = a.args[lo.args[0]:hi.args[0]]
        return mk("arr", *es) if es else VNIL
    if a.op == "push":
        n = length(a.args[0])
        d = sub(n, hi)
        if d.op == "i" and d.args[0] >= 0:
            return subarr(a.args[0], lo, hi)
        if hi is length(a):
            dl = sub(n, lo)
            if dl.op == "i" and dl.args[0] >= 0:
                return push(subarr(a.args[0], lo, n), a.args[1])
    if a.op == "cat":
        n = length(a.args[0])
        if lo is n and hi is length(a):
            return a.args[1]
        if hi is n:
            return subarr(a.args[0], lo, hi)
    return mk("sub", a, lo, hi)


def cat(a, b):
    if a.op == "vnil":
        return b
    if b.op == "vnil":
        return a
    if b.op == "arr" and a.op in ("arr",):
        return mk("arr", *(a.args + b.args))
    if b.op == "arr":
        for x in b.args:
            a = push(a, x)
        return a
    if b.op == "push":
        return push(cat(a, b.args[0]), b.args[1])
    return mk("cat", a, b)


def store(a, i, v):
    if a.op == "arr" and i.op == "i" and 0 <= i.args[0] < len(a.args):
        e = list(a.args)
        e[i.args[0]] = v
        return mk("arr", *e)
    if a.op == "store" and a.args[1] is i:
        return store(a.args[0], i, v)
    if a.op == "push" and i is length(a.args[0]):
        return push(a.args[0], v)
    if v.op == "sel" and v.args[0] is a and v.args[1] is i:
        return a
    return mk("store", a, i, v)


def sel(a, i, decide=None):
    """Element i of array a, resolving updates where `decide` can tell indices apart."""
    while True:
        o = a.op
        if o == "lits":
            # literals given as a variable and a polarity
            return add(scale(sel(a.args[0], i), 2), band(sel(a.args[1], i), ONE))
        if o == "arr" and i.op == "i" and 0 <= i.args[0] < len(a.args):
            return a.args[i.args[0]]
        if o == "arr" and decide is not None and len(a.args) <= 4:
            for n, x in enumerate(a.args):
                if decide(eq(i, I(n))) is True:
                    return x
        if o == "store":
            e = eq(a.args[1], i)
            if e is TRUE:
                return a.args[2]
            if e is FALSE:
                a = a.args[0]
                continue
            if decide is not None:
                d = decide(e)
                if d is True:
                    return a.args[2]
                if d is False:
                    a = a.args[0]
                    continue
        elif o == "push":
            n = length(a.args[0])
            e = eq(n, i)
            if e is TRUE:
                return a.args[1]
            c = lt(i, n)
            if c is TRUE or (decide is not None and decide(c) is True):
                a = a.args[0]
                continue
            if decide is not None and decide(e) is True:
                return a.args[1]
        elif o == "sub":
            i = add(a.args[1], i)
            a = a.args[0]
            continue
        elif o == "cat":
            n = length(a.args[0])
            c = lt(i, n)
            d = True if c is TRUE else False if c is FALSE else (
                decide(c) if decide is not None else None)
            if d is True:
                a = a.args[0]
                continue
            if d is False:
                i = sub(i, n)
                a = a.args[1]
                continue
        elif o == "fill":
            return a.args[0]
        elif o == "rev":
            i = sub(sub(length(a.args[0]), ONE), i)
            a = a.args[0]
            continue
        elif o == "swp":
            x, y = a.args[1], a.args[2]
            dx = eq(x, i)
            dy = eq(y, i)
            dx = dx is TRUE or (dx is not FALSE and (decide(dx) if decide else None))
            dy = dy is TRUE or (dy is not FALSE and (decide(dy) if decide else None))
            if dx is True:
                i, a = y, a.args[0]
                continue
            if dy is True:
                i, a = x, a.args[0]
                continue
            if dx is False and dy is False:
                a = a.args[0]
                continue
        elif o == "resize":
            n = length(a.args[0])
            c = lt(i, n)
            d = True if c is TRUE else False if c is FALSE else (
                decide(c) if decide is not None else None)
            if d is True:
                a = a.args[0]
                continue
            if d is False:
                return a.args[2]
        elif o == "splice":
            # splice(A, lo, V): V written over A from lo on
            lo, v = a.args[1], a.args[2]
            n = length(v)

            def q(c):
                return True if c is TRUE else False if c is FALSE else (
                    decide(c) if decide is not None else None)
            below = q(lt(i, lo))
            above = q(le(add(lo, n), i))
            if below is True or above is True:
                a = a.args[0]
                continue
            if below is False and above is False:
                i = sub(i, lo)
                a = v
                continue
        return mk("sel", a, i)


# ---------------------------------------------------------------- substitution

def subst(t, m, cache=None):
    """Replaces terms (keys of m) in t, re-normalising."""
    if cache is None:
        cache = {}
    if isinstance(t, tuple):
        return tuple(subst(x, m, cache) if isinstance(x, (T, tuple)) else x for x in t)
    if not isinstance(t, T):
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = cache.get(t)
    if r is not None:
        return r
    if t.op == "lin":
        r = I(t.args[0])
        for a, k in t.args[1]:
            r = add(r, subst(a, m, cache), k)
    else:
        na = tuple(subst(x, m, cache) if isinstance(x, (T, tuple)) else x for x in t.args)
        if all(x is y for x, y in zip(na, t.args)):
            r = t
        else:
            r = rebuild(t.op, na)
    cache[t] = r
    return r


def rebuild(op, a):
    f = _REB.get(op)
    if f is not None:
        return f(*a)
    if op == "xor":
        r = I(a[1])
        for x in a[0]:
            r = bxor(r, x)
        return r
    if op == "eqx":
        r = I(a[1])
        for x in a[0]:
            r = bxor(r, x)
        return eq(r, ZERO)
    if op == "eq":
        return eq_plain(a[0], ZERO)
    return mk(op, *a)


_REB = {
    "shr": shr, "shl": shl, "and": band, "and1": lambda x: band(x, ONE), "or": bor, "mul": mul,
    "tr": trunc, "div": udiv, "rem": urem, "le": le0, "eqo": eqo, "not": notb, "andb": and_b,
    "xorb": xor_b, "b2i": b2i, "st": st, "fld": fld, "vfld": vfld, "disc": disc, "len": length,
    "push": push, "sub": subarr, "cat": cat, "store": store, "sel": sel,
}
