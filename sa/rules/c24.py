"""Decision scores, by interval analysis over floating point terms.

Every function that can reach the scores or the increment is analysed from an arbitrary state, with
one symbol for an arbitrary score and one for the increment.  The operations of the heap are contracts
(decided by C22): `increase` applies the given function to one score, `apply_monotone` to all.  The
result of each abstract path is a term for an arbitrary score, for each bumped score and for the
increment.  From the constants of the code a bound for scores and one for the increment are selected
that is an inductive invariant: values between zero and the bound are mapped to finite values between
zero and the bound by every path (interval arithmetic with single precision rounding, comparisons on
the path narrow the intervals).  On every path an arbitrary score, the bumped score and the increment
are multiplied by the same positive factors; besides that, the increment may grow.  A bumped score is
the old one plus something that is not negative, so the heap's requirements hold."""
import math
import struct

from .common import *
from .. import models
from ..state import State
from ..check import Unknown
from . import scan, c34

RULE = "inductive interval for scores and increment; common factors on every path"
TECHNIQUE = "abstract interpretation (floating point intervals over MIR)"
ASSUMES = ["the heap applies the given functions to the scores (C22)", "IEEE 754 round to nearest"]

VSIDS = "starlit::search::vsids::Vsids"
HEAP = "starlit::heap::MaxHeap"
SC = ("G", "scores")
ANY = mk("sym", "score")


def rnd(x, size=4):
    """x rounded to single precision."""
    if size != 4 or math.isinf(x) or math.isnan(x):
        return x
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def val(x):
    if x.op == "flt":
        size = x.args[1] or 8
        return struct.unpack("<f" if size == 4 else "<d", x.args[0].to_bytes(size, "little"))[0]
    if x.op == "bitsf" and x.args[0].op == "i":
        return struct.unpack("<f", (x.args[0].args[0] & 0xffffffff).to_bytes(4, "little"))[0]
    return None


def bits(f):
    return struct.unpack("<I", struct.pack("<f", f))[0]


class Intervals(object):
    def __init__(self, st, env, consts):
        self.st, self.env, self.consts = st, env, consts
        self.memo = {}

    def __call__(self, x):
        """(low, high) of a term that is a number, or None; minus zero counts as negative."""
        if x in self.memo:
            return self.memo[x]
        r = self.raw(x)
        if r is not None:
            if any(math.isnan(v) for v in r):
                r = None
            else:
                r = self.narrow(x, r)
        self.memo[x] = r
        return r

    def narrow(self, x, r):
        lo, hi = r
        for f, v in self.st.facts.items():
            if f.op != "fcmp":
                continue
            op, a, b = f.args
            if x is not a and x is not b:
                continue
            y = b if x is a else a
            c = val(y)
            c = (c, c) if c is not None else self.raw(y)
            if c is None:
                continue
            # x is not NaN here
            upper = (x is a) == bool(v) if op in ("Lt", "Le") else None
            if op == "Eq":
                if v:
                    lo, hi = max(lo, c[0]), min(hi, c[1])
            elif upper:
                hi = min(hi, c[1])
            else:
                lo = max(lo, c[0])
        if lo >= 0:
            for c in self.consts:
                if c < hi and self.st.decide(t.le(mk("fbits", x), I(bits(c)))) is True:
                    hi = c
        return (lo, hi)

    def raw(self, x):
        v = val(x)
        if v is not None:
            if v == 0 and math.copysign(1, v) < 0:
                v = -5e-324
            return (v, v)
        if x.op == "scoreof" or x.op == "bitsf" and x.args[0].op == "scoreof":
            x = ANY
        if x in self.env:
            return self.env[x]
        o = x.op
        if o == "fop":
            a, b = self(x.args[1]), self(x.args[2])
            if a is None or b is None:
                return None
            op = x.args[0]
            if op.startswith("Add"):
                r = [a[0] + b[0], a[1] + b[1]]
            elif op.startswith("Sub"):
                r = [a[0] - b[1], a[1] - b[0]]
            elif op.startswith("Mul"):
                r = [p * q for p in a for q in b]
            elif op.startswith("Div"):
                if b[0] <= 0 <= b[1]:
                    return None
                r = [p / q for p in a for q in b]
            else:
                return None
            if any(math.isnan(v) for v in r):
                return None
            return (rnd(min(r)), rnd(max(r)))
        if o == "ffn":
            a = [self(y) for y in x.args[1:]]
            if None in a:
                return None
            n = x.args[0]
            if n in ("max", "min"):
                f = max if n == "max" else min
                return (f(a[0][0], a[1][0]), f(a[0][1], a[1][1]))
            if n == "abs":
                return (0.0, max(abs(a[0][0]), abs(a[0][1])))
            return None
        if o == "f2f":
            a = self(x.args[0])
            return None if a is None else (rnd(a[0]), rnd(a[1])) if x.args[1] == "f32" else a
        return None


def consts(x, out, depth=0):
    v = val(x)
    if v is not None:
        if 0 < v < math.inf:
            out.add(v)
    elif depth < 20:
        for y in x.args:
            if hasattr(y, "op"):
                consts(y, out, depth + 1)


def factors(x):
    """(the factors multiplied onto it, the rest)."""
    fs = []
    for _ in range(40):
        if x.op != "fop" or x.args[0][:3] not in ("Mul", "Div"):
            break
        a, b = x.args[1], x.args[2]
        if val(b) is not None:
            fs.append((x.args[0][:3], val(b)))
            x = a
        elif x.args[0][:3] == "Mul" and val(a) is not None:
            fs.append(("Mul", val(a)))
            x = b
        else:
            break
    return sorted(fs), x


def product(fs):
    r = 1.0
    for o, v in fs:
        r = r * v if o == "Mul" else r / v if v else math.inf
    return r


def minus(a, b):
    """Multiset difference, or None if b is not part of a."""
    a = list(a)
    for x in b:
        if x not in a:
            return None
        a.remove(x)
    return a


def own_score(x, k):
    """The score x of an arbitrary key, for key k."""
    if x is ANY:
        return mk("scoreof", k)
    return mk(x.op, *[own_score(y, k) if hasattr(y, "op") else y for y in x.args])


class Scores(Rule):
    """The state of the scores is a ghost term scores(any, key, bumped, ...)."""

    def __init__(self, cx, fld):
        self.cx, self.fld = cx, fld
        self.values = []
        self.odd = []

    def heap(self, eng, c):
        return c.path.startswith(HEAP + "::") or c.path.startswith("<" + HEAP)

    def on_call(self, eng, st, c):
        if not self.heap(eng, c):
            return None
        tail = c.path.rsplit("::", 1)[-1]
        if tail == "default":
            return None
        sc = st.mem[SC].args
        if tail == "increase":
            out = []
            i = self.entry(st, c.args[1])
            for s, v in self.apply(eng, st, c, st.mem[SC].args[i], 2):
                x = list(s.mem[SC].args)
                x[i] = v
                s.mem[SC] = mk("scores", *x)
                out.append((s, t.UNIT))
            return out
        if tail == "apply_monotone":
            cur = [(st, [])]
            for i, x in enumerate(sc):
                if i % 2:
                    cur = [(s, vs + [x]) for s, vs in cur]
                    continue
                cur = [(s2, vs + [v]) for s, vs in cur for s2, v in self.apply(eng, s, c, x, 1)]
            for s, vs in cur:
                s.mem[SC] = mk("scores", *vs)
            return [(s, t.UNIT) for s, _ in cur]
        if tail in ("resize", "resize_enqueued"):
            self.values.append((st.copy(), mk("bitsf", c.args[2]) if c.args[2].op != "fbits" else
                                c.args[2].args[0], at(c.fr, c.span)))
            return [(st, t.UNIT)]
        if tail == "index":
            st = st.copy()
            i = self.entry(st, c.args[1])
            v = st.mem[SC].args[i]
            base = ("K", ("score", v))
            st.mem[base] = mk("fbits", v) if v.op != "bitsf" else v.args[0]
            return [(st, mk("ref", base, ()))]
        if tail in ("pop_max", "enqueue", "dequeue", "len", "is_enqueued"):
            return [(st, eng.fresh(c, tail))]
        self.odd.append((tail, at(c.fr, c.span)))
        return [(st, eng.fresh(c, tail))]

    def entry(self, st, k):
        """Where the score of key k is."""
        sc = st.mem[SC].args
        for i in range(1, len(sc), 2):
            if sc[i] is k or st.decide(t.eq(sc[i], k)) is True:
                return i + 1
            if st.decide(t.eq(sc[i], k)) is not False:
                raise Unknown("keys that may be equal")
        st.mem[SC] = mk("scores", *(sc + (k, own_score(sc[0], k))))
        return len(sc) + 1

    def apply(self, eng, st, c, x, i):
        """Calls the given function on a score."""
        base = ("T", c.fr.ctx, c.block, "score")
        st = st.copy()
        st.mem[base] = mk("fbits", x) if x.op != "bitsf" else x.args[0]
        outs = models.call_value(eng, st, c, c.args[i], c.argtys[i], [mk("ref", base, ())],
                                 ["&mut u32"])
        if outs is None:
            raise Unknown("a function passed to the heap is not known")
        res = []
        for s, _ in outs:
            v = s.mem.pop(base)
            res.append((s, v.args[0] if v.op == "fbits" else mk("bitsf", v)))
        return res


def roots(cx):
    """Functions with access to the scores that can be called from elsewhere."""
    for p, f in sorted(cx.lib.fns.items()):
        if p.startswith(VSIDS + "::") and f["pub"] or p.startswith("<" + VSIDS + " as "):
            ks = cx.lib.find(p)
            if ks and cx.lib.body(ks[0]) is not None:
                yield p, f, ks[0]


def run(cx):
    act, inc = fpath(cx, VSIDS, "activity"), fpath(cx, VSIDS, "increment")
    paths, news, rows, cs = set(), 0, [], set()
    inc0 = None
    for p, f, key in roots(cx):
        paths.add(p)
        w = cx.where(p)
        sel = [i for i, ty in enumerate(cx.params(key)) if VSIDS in ty]
        if not sel and VSIDS not in cx.lib.body(key).locals[0][0]:
            continue
        rule = Scores(cx, act)
        e = cx.engine(rule, {})
        st = State()
        st.mem[SC] = mk("scores", ANY)
        e, a, outs = cx.run(key, st=st, rule=rule, eng=e)
        for n, w2 in rule.odd:
            cx.ob(False, "c24:heap:" + n, "%s of the heap is used, which is not known to keep the scores "
                  "in range" % n, w2)
        for s, r in outs:
            base = P(a[sel[0]]) if sel else None
            if VSIDS == cx.lib.body(key).locals[0][0]:
                news += 1
                rows.append((p, w, s, [View(cx, r, VSIDS).increment], [], None))
                continue
            if base is None:
                continue
            x0 = pre(e, cx, a[sel[0]], VSIDS).increment
            x1 = post(e, cx, s, a[sel[0]], VSIDS).increment
            inc0 = x0
            sc = s.mem[SC].args
            rows.append((p, w, s, [x1], list(sc[:1]) + list(zip(sc[1::2], sc[2::2])), x0))
            for x in (x1,) + sc:
                consts(x, cs)
            for q in s.facts:
                if q.op == "fcmp":
                    consts(q, cs)
        for s, v, w2 in rule.values:
            rows.append((p, w2, s, [], [v], None))
    cx.ob(news > 0, "c24:new", "scores are never created")
    cx.ob(any(len(r[4]) > 1 for r in rows), "c24:bump", "scores are never bumped")
    best = None
    if inc0 is None:
        raise Unknown("increment")
    cs |= {1.0}
    for bs in sorted(cs, reverse=True):
        for bi in sorted(cs, reverse=True):
            bad = judge(rows, bs, bi, cs)
            if best is None or len(bad) < len(best[0]):
                best = (bad, bs, bi)
        if not best[0]:
            break
    cx.note("scores up to %g, increment up to %g" % best[1:])
    for k, msg, w in best[0]:
        cx.ob(False, k, msg + " (bounds %g, %g)" % best[1:], w)
    for p, w, s, incs, scores, x0 in rows:
        cx.ob(True, "c24:range:" + p, "", w)
        if x0 is not None:
            common(cx, p, w, s, incs[0], scores, x0, best)
    own(cx, paths)


def judge(rows, bs, bi, cs):
    bad = []
    for p, w, s, incs, scores, x0 in rows:
        env = {ANY: (0.0, bs), mk("bitsf", ANY): (0.0, bs)}
        if x0 is not None:
            env[x0] = (0.0, bi)
        f = Intervals(s, env, cs)
        for xs, b, n in ((incs, bi, "the increment"), (scores, bs, "a score")):
            for x in xs:
                r = f(x[1] if type(x) is tuple else x)
                tail = p.rsplit("::", 1)[-1]
                if r is None:
                    bad.append(("c24:range:" + p, "%s may not be a number after %s" % (n, tail), w))
                elif r[0] < 0:
                    bad.append(("c24:range:" + p, "%s may be negative after %s" % (n, tail), w))
                elif not r[1] <= b:
                    bad.append(("c24:range:" + p, "%s may exceed all limits after %s" % (n, tail), w))
    return bad


def common(cx, p, w, s, x1, scores, x0, best):
    """One factor for everything."""
    fa, ra = factors(scores[0])
    fi, ri = factors(x1)
    ok = ra is ANY and ri is x0
    cx.ob(ok, "c24:scale:form:" + p, "scores or the increment change other than by a factor", w)
    if not ok:
        return
    left = minus(fi, fa)
    cx.ob(all(v > 0 and math.isfinite(v) for _, v in fa + fi), "c24:scale:positive:" + p,
          "a factor is not positive", w)
    cx.ob(left is not None and product(left) >= 1, "c24:scale:common:" + p, "scores and the increment "
          "are not scaled by the same factor", w)
    env = {ANY: (0.0, best[1]), x0: (0.0, best[2])}
    for k, x in scores[1:]:
        fb, rb = factors(x)
        ok = rb.op == "scoreof" and rb.args[0] is k and fb == fa
        if rb.op == "fop" and rb.args[0].startswith("Add"):
            for old, d in ((rb.args[1], rb.args[2]), (rb.args[2], rb.args[1])):
                fo, ro = factors(old)
                if ro.op == "scoreof" and ro.args[0] is k and sorted(fo + fb) == fa:
                    r = Intervals(s, env, ())(d)
                    ok = ok or r is not None and r[0] >= 0
        cx.ob(ok, "c24:scale:bumped:" + p, "a bumped score is not its old value plus something, scaled "
              "like the others", w)


def own(cx, paths):
    cm = scan.callmap(cx.lib)
    for n in ("activity", "increment"):
        for p in sorted(c34.writers(cx, VSIDS, n)):
            bad = scan.only_from(cm, p, paths)
            cx.ob(not bad, "c24:writer:%s:%s" % (n, p), "%s is changed by %s" % (n, p), cx.where(p))
