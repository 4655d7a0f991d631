"""Literals and variables, by exact abstract interpretation of their methods.

A literal is taken as 2*v+p for a symbolic variable v in the documented range and either polarity p.
The result of every conversion, accessor, operator, comparison, index and DIMACS function is computed
with exact machine arithmetic on every path and must be the term that the definition gives; the
integer that is formatted must be the DIMACS number."""
from .common import *
from ..state import State
from ..engine import Rule
from . import scan
from .c17 import consts, LIT, VAR, M

RULE = "result of each method against the definition"
ASSUMES = ["values are in the documented range (C17)"]
BOTH_PROFILES = False

VMI = "starlit::util::vec_map::VecMapIndex"
VMK = "starlit::util::vec_map::VecMapKey"


class Format(Rule):
    """Records integers that are formatted."""

    def on_call(self, eng, st, c):
        if c.path.endswith("::fmt") and c.argtys and c.argtys[0] in ("&isize", "&i64") \
                or ("Argument" in c.path and c.argtys and c.argtys[0] in ("&isize", "&i64")):
            event(st, "fmt", eng.read(st, c.args[0]))
        return None


def run(cx):
    top = consts(cx)[M + "MAX_INDEX"]
    v, w = mk("sym", "v"), mk("sym", "w")

    def start(*conds):
        s = State()
        for x in (v, w):
            s.assume(t.le(ZERO, x))
            s.assume(t.le(x, I(top)))
        for c in conds:
            s.assume(c)
        return s

    def lit(x, p):
        return t.add(t.mul(I(2), x), I(int(p)))

    def fn(path, args, want, st=None, what="", ref=False):
        """The function returns want (a term or bool) on every path and returns at all."""
        key = cx.key(path)
        s0 = st or start()
        vals = {}
        for i, (a, ty) in enumerate(zip(args, cx.params(key))):
            if ty.startswith("&") and a is not None:
                p = mk("sym", "p%d" % i)
                s0.mem[("P", p)] = a
                a = p
            if a is not None:
                vals[i] = a
        rule = Format()
        e, _, outs = cx.run(key, args=vals, st=s0, rule=rule, pr={}, exact=True)
        k = "c18:" + path
        cx.ob(bool(outs), k, "%s does not return%s" % (path, what), cx.where(path))
        for s, r in outs:
            cx.ob(same(s, r, want), k, "%s of %s gives %s instead of %s" % (
                path, what or ", ".join(map(str, args)), r, want), cx.where(path))
        return outs

    def same(s, r, want):
        if isinstance(want, bool):
            return s.decide(r) is want
        if want is None:
            return True
        if want.op == "en":
            return r.op == "en" and r.args[0] == want.args[0] and len(r.args) == len(want.args) \
                and all(same(s, x, y) for x, y in zip(r.args[1:], want.args[1:]))
        return s.decide(t.eq(settle(s, r), want)) is True

    def panics(path, args, conds, what):
        key = cx.key(path)
        s = start()
        if all(s.assume(c) for c in conds):
            _, _, outs = cx.run(key, args=dict(enumerate(args)), st=s, pr={}, exact=True)
            cx.ob(not outs, "c18:" + path, "%s accepts %s" % (path, what), cx.where(path))

    L, V = LIT + "::", VAR + "::"
    pos = t.add(v, ONE)
    # variables
    fn(V + "index", [v], v)
    fn(V + "dimacs", [v], pos)
    fn("<%s as flussab_cnf::Dimacs>::dimacs" % VAR, [v], pos)
    fn(V + "from_index", [v], v)
    fn(V + "from_index_unchecked", [v], v)
    fn(V + "from_dimacs", [pos], v)
    fn("<%s as flussab_cnf::Dimacs>::from_dimacs" % VAR, [pos], v)
    fn("<%s as %s>::vec_map_index" % (VAR, VMI), [v], v)
    fn("<%s as %s>::vec_map_key_from_index" % (VAR, VMK), [v], v)
    panics(L + "from_dimacs", [ZERO], [], "zero")
    panics("<%s as flussab_cnf::Dimacs>::from_dimacs" % LIT, [ZERO], [], "zero")
    for p in (True, False):
        x = lit(v, p)
        B = t.TRUE if p else t.FALSE
        num = pos if p else t.sub(ZERO, pos)
        fn(L + "code", [x], x)
        fn(L + "var", [x], v)
        fn(L + "index", [x], v)
        fn(L + "is_positive", [x], p)
        fn(L + "is_negative", [x], not p)
        fn(L + "dimacs", [x], num)
        fn("<%s as flussab_cnf::Dimacs>::dimacs" % LIT, [x], num)
        fn("<%s as std::ops::Not>::not" % LIT, [x], lit(v, not p))
        for q in (True, False):
            fn("<%s as std::ops::BitXor<bool>>::bitxor" % LIT, [x, t.TRUE if q else t.FALSE],
               lit(v, p != q))
        fn(L + "from_var", [v, B], x)
        fn(L + "from_index", [v, B], x)
        fn(L + "from_index_unchecked", [v, B], x)
        fn(L + "from_code", [x], x)
        fn(L + "from_code_unchecked", [x], x)
        fn(L + "from_dimacs", [num], x)
        fn("<%s as flussab_cnf::Dimacs>::from_dimacs" % LIT, [num], x)
        fn("<%s as %s>::vec_map_index" % (LIT, VMI), [x], x)
        fn("<%s as %s<%s>>::vec_map_index" % (LIT, VMI, VAR), [x], v)
        fn("<%s as %s>::vec_map_key_from_index" % (LIT, VMK), [x], x)
        for q in (True, False):
            y = lit(w, q)
            fn(L + "select_other", [x, x, y], y, what="the first of two")
            fn(L + "select_other", [x, y, x], y, what="the second of two")
        for tr in ("Debug", "Display"):
            formats(cx, "<%s as std::fmt::%s>::fmt" % (LIT, tr), x, num, start())
    for tr in ("Debug", "Display"):
        formats(cx, "<%s as std::fmt::%s>::fmt" % (VAR, tr), v, pos, start())
    # copies, equality and order
    for ty, mkv in ((VAR, lambda z, p: z), (LIT, lit)):
        for p in (True, False):
            x = mkv(v, p)
            fn("<%s as std::clone::Clone>::clone" % ty, [x], x)
            for q in (True, False):
                y = mkv(w, q)
                for cond, o in ((t.eq(x, y), 0), (t.lt(x, y), -1), (t.lt(y, x), 1)):
                    s = start()
                    if cond is t.FALSE or not s.assume(cond):
                        continue
                    fn("<%s as std::cmp::PartialEq>::eq" % ty, [x, y], o == 0, s.copy())
                    ord_ = t.en(o + 1)
                    fn("<%s as std::cmp::Ord>::cmp" % ty, [x, y], ord_, s.copy())
                    fn("<%s as std::cmp::PartialOrd>::partial_cmp" % ty, [x, y], t.en(1, ord_),
                       s.copy())


def settle(s, r):
    """Replaces Booleans used as numbers by their value where it is known."""
    m = {}
    todo = [r]
    while todo:
        x = todo.pop()
        if not isinstance(x, t.T):
            if isinstance(x, tuple):
                todo.extend(x)
            continue
        if x.op == "b2i":
            d = s.decide(x.args[0])
            if d is not None:
                m[x] = I(int(d))
                continue
        todo.extend(x.args)
    return t.subst(r, m) if m else r


def formats(cx, path, x, num, s0):
    key = cx.key(path)
    i = cx.param(key, "lit::")
    p = mk("sym", "p0")
    s0.mem[("P", p)] = x
    _, _, outs = cx.run(key, args={i: p}, st=s0, rule=Format(), pr={}, exact=True)
    cx.ob(bool(outs), "c18:" + path, "%s does not return" % path, cx.where(path))
    for s, r in outs:
        ev = [m.args[1] for m in events(s, "fmt")]
        cx.ob(len(ev) == 1 and s.decide(t.eq(settle(s, ev[0]), num)) is True, "c18:" + path,
              "%s prints %s instead of the DIMACS number" % (path, [str(y) for y in ev]),
              cx.where(path))
