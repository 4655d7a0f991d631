"""Bit provenance: which bit of which unknown each bit of a term is.

A bit is 0, 1, ("b", atom, i), ("n", bit) for a negation or ("?", term, i) if unknown; two equal
descriptions denote equal bits."""
from . import terms as t
from .terms import I

W = 64


def neg(b):
    if b in (0, 1):
        return 1 - b
    if b[0] == "n":
        return b[1]
    return ("n", b)


def _and(x, y, key):
    if x == 0 or y == 0:
        return 0
    if x == 1 or x == y:
        return y
    if y == 1:
        return x
    if x == neg(y):
        return 0
    return ("?",) + tuple(sorted((repr(x), repr(y)))) + ("and",)


def _or(x, y, key):
    if x == 1 or y == 1:
        return 1
    if x == 0 or x == y:
        return y
    if y == 0:
        return x
    if x == neg(y):
        return 1
    return ("?",) + tuple(sorted((repr(x), repr(y)))) + ("or",)


def _xor(x, y, key):
    if x in (0, 1):
        return neg(y) if x else y
    if y in (0, 1):
        return neg(x) if y else x
    if x == y:
        return 0
    if x == neg(y):
        return 1
    return ("?",) + tuple(sorted((repr(x), repr(y)))) + ("xor",)


def boolean(st, c):
    d = st.decide(c)
    if d is not None:
        return int(d)
    if c.op == "not":
        return neg(boolean(st, c.args[0]))
    if c.op == "eq":
        k, d = t.lin_parts(c.args[0])
        if len(d) == 1:
            (x, m), = d.items()
            want = -k * m
            if m in (1, -1) and want >= 0:
                bs = bits(st, x)
                open_ = [i for i, b in enumerate(bs) if b not in (0, 1)]
                fixed = sum(b << i for i, b in enumerate(bs) if b == 1)
                if not open_:
                    return int(want == fixed)
                if len(open_) == 1:
                    i = open_[0]
                    if want == fixed:
                        return neg(bs[i])
                    if want == fixed | 1 << i:
                        return bs[i]
                    return 0
    if c.op == "le":
        # x <= 0 or 1 - x <= 0 for a single bit
        k, d = t.lin_parts(c.args[0])
        if len(d) == 1:
            (x, m), = d.items()
            bs = bits(st, x)
            open_ = [b for b in bs if b not in (0, 1)]
            if len(open_) == 1 and 1 not in bs:
                v = 1 << bs.index(open_[0])
                lo, hi = k <= 0, k + m * v <= 0
                if lo != hi:
                    return open_[0] if hi else neg(open_[0])
                return int(lo)
    return ("b", c, 0)


def bits(st, x, n=W):
    """The lowest n bits of a term."""
    o = x.op
    if o == "i":
        v = x.args[0] & ((1 << n) - 1)
        return [v >> i & 1 for i in range(n)]
    if o == "bool":
        return [int(x.args[0])] + [0] * (n - 1)
    if o in ("and", "or"):
        f = _and if o == "and" else _or
        a, b = bits(st, x.args[0], n), bits(st, x.args[1], n)
        return [f(p, q, (x, i)) for i, (p, q) in enumerate(zip(a, b))]
    if o == "xor":
        r = bits(st, I(x.args[1]), n)
        for y in x.args[0]:
            r = [_xor(p, q, (x, i)) for i, (p, q) in enumerate(zip(r, bits(st, y, n)))]
        return r
    if o == "and1":
        return [bits(st, x.args[0], n)[0]] + [0] * (n - 1)
    if o == "b2i":
        return [boolean(st, x.args[0])] + [0] * (n - 1)
    if o == "tr":
        k = x.args[1]
        r = bits(st, x.args[0], min(k, n))
        r += [0] * (n - len(r))
        return cut(st, x, r)
    if o == "shr" and x.args[1].op == "i":
        k = x.args[1].args[0]
        return bits(st, x.args[0], n + k)[k:]
    if o == "shl" and x.args[1].op == "i":
        k = x.args[1].args[0]
        return ([0] * k + bits(st, x.args[0], n))[:n]
    if o == "lin":
        c, d = t.lin_parts(x)
        if c >= 0 and len(d) == 1 and list(d.values())[0] == -1 and c & (c + 1) == 0:
            # c - y with c = 2^m - 1 is the complement of y on m bits
            y = next(iter(d))
            m = c.bit_length()
            bs = bits(st, y, n)
            if all(b == 0 for b in bs[m:]):
                return [neg(b) for b in bs[:m]] + [0] * (n - len(bs[:m]))
        if c >= 0 and all(k > 0 and k & (k - 1) == 0 for k in d.values()):
            r = bits(st, I(c), n)
            for y, k in d.items():
                s = k.bit_length() - 1
                ys = ([0] * s + bits(st, y, n))[:n]
                if any(p != 0 and q != 0 for p, q in zip(r, ys)):
                    break
                r = [q if p == 0 else p for p, q in zip(r, ys)]
            else:
                return r
    return cut(st, x, [("b", x, i) for i in range(n)])


def cut(st, x, r):
    """Bits above a known bound are zero."""
    n = len(r)
    while n and (r[n - 1] == 0 or st.decide(t.le(x, I((1 << n - 1) - 1))) is True):
        n -= 1
    return r[:n] + [0] * (len(r) - n)


def bitwise(st, r):
    """Bits of a number or of a Boolean."""
    if r.op in ("eq", "not", "le", "bool", "eqo", "eqx", "andb", "orb"):
        return [boolean(st, r)]
    return bits(st, r)
