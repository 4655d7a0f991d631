"""The partial assignment as a three-valued map, by exact abstract interpretation of its methods.

From an arbitrary assignment and an arbitrary variable, every operation that changes the assignment
(assigning either polarity, unassigning, growing, and every other one that a query finds) is followed,
on each of its abstract paths, by each of the four read operations: the results for both literals of
the variable must be the documented ones.  For another arbitrary variable every read operation must
give what it gives before the change.  Arithmetic is exact modular arithmetic on bytes and words."""
from .common import *
from ..state import State
from . import scan

RULE = "all read operations after every change, in the changed and in another variable"
ASSUMES = ["indices are in the documented range (C17)"]
BOTH_PROFILES = False

PA = "starlit::partial_assignment::PartialAssignment"
RESIZE = "<%s as starlit::tracking::Resize>::resize" % PA


def run(cx):
    p = PA + "::"
    A = mk("sym", "a0")
    v, w = mk("sym", "v"), mk("sym", "w")
    reads = {"is_true": True, "is_false": True, "is_assigned": False, "value": True}
    top = consts(cx)["starlit::lit::MAX_INDEX"]

    def call(path, st, x):
        key = cx.key(path)
        i = cx.param(key, PA)
        args = {i: A, 1 - i: x}
        _, _, outs = cx.run(key, args=args, st=st, pr={}, exact=True)
        return outs

    def lit(x, pos):
        return t.add(t.mul(I(2), x), I(int(pos)))

    def read(name, st, x, pos):
        """[(state, result)] of a read operation."""
        return call(p + name, st, lit(x, pos) if reads[name] else x)

    def start():
        st = State()
        for x in (v, w):
            st.assume(t.le(ZERO, x))
            st.assume(t.le(x, I(top)))
        return st

    def norm(st, r, name):
        if name != "value":
            return st.decide(r)
        if r.op == "en":
            return None if r.args[0] == 0 else st.decide(r.args[1])
        return "?"

    def expect(st, x, val, what):
        """Reads of variable x must agree with its value (True, False, None)."""
        for pos in (True, False):
            for name in reads:
                want = {"is_true": val is not None and val == pos,
                        "is_false": val is not None and val != pos,
                        "is_assigned": val is not None,
                        "value": None if val is None else val == pos}[name]
                outs = read(name, st, x, pos)
                cx.ob(bool(outs), "c19:%s:returns" % name, "%s does not return after %s"
                      % (name, what), cx.where(p + name))
                for s, r in outs:
                    got = norm(s, r, name)
                    cx.ob(got == want and got != "?", "c19:%s" % name,
                          "%s of a %s literal is %s after %s" % (
                              name, "positive" if pos else "negative", got, what),
                          cx.where(p + name))

    def other(s0, s1, what):
        """Reads of w give the same in both states (s1 follows from s0)."""
        for pos in (True, False):
            for name in reads:
                for s, r in read(name, s1, w, pos):
                    # the same paths from the old memory
                    so = s.copy()
                    so.mem = dict(s0.mem)
                    for s2, r2 in read(name, so, w, pos):
                        same = norm(s2, r, name) == norm(s2, r2, name) and \
                            norm(s2, r, name) != "?" or r is r2
                        if name != "value":
                            same = same and (s2.decide(r) is not None or r is r2)
                        cx.ob(same, "c19:other", "%s changes what %s says about another variable"
                              % (what, name), cx.where(p + name))

    for pos in (True, False):
        st = start()
        outs = call(p + "assign", st, lit(v, pos))
        cx.ob(bool(outs), "c19:assign", "assign does not return", cx.where(p + "assign"))
        for s, _ in outs:
            expect(s, v, pos, "assigning its variable")
            st2 = s.copy()
            st2.assume(t.notb(t.eq(v, w)))
            other(st, st2, "assign")
    st = start()
    outs = call(p + "unassign", st, v)
    cx.ob(bool(outs), "c19:unassign", "unassign does not return", cx.where(p + "unassign"))
    for s, _ in outs:
        expect(s, v, None, "unassigning its variable")
        st2 = s.copy()
        st2.assume(t.notb(t.eq(v, w)))
        other(st, st2, "unassign")

    def unassigned(st, i, val):
        """Whether all reads take val at entry i for an unassigned variable."""
        s0 = start()
        x = i
        for f in st.facts:
            s0.assume(f)
        if not (s0.assume(t.le(ZERO, x)) and s0.assume(t.le(x, I(top)))):
            return False
        arr = mk("pt", mk("sym", "some"))
        s0.assume(t.lt(x, t.length(arr)))
        s0.mem[("P", A)] = t.store(arr, x, val)
        for pos in (True, False):
            for name in reads:
                outs = read(name, s0, x, pos)
                if not outs:
                    return False
                for s, r in outs:
                    if norm(s, r, name) is not (None if name == "value" else False):
                        return False
        return True
    grow(cx, start, call, v, w, unassigned)
    # nobody else touches the representation
    i, _ = cx.lay.idx(PA, "assigned", "VecMap")
    known = {p + "assign", p + "unassign", RESIZE, "<%s as std::default::Default>::default" % PA}
    for k, b in scan.bodies(cx.lib):
        for pl, use, sp in scan.places(b):
            fs = scan.fields_of(cx.lib, b, pl)
            if fs and fs[-1][0] == PA and fs[-1][1] == i and use in ("write", "refmut"):
                q = scan.base(b.path)
                cx.ob(q in known or only_helper(cx, q, known), "c19:writers", "the assignment is "
                      "also changed by %s" % b.path, "%s at %s" % (b.path, scan.line(sp)))


def only_helper(cx, path, known):
    """Whether a function is only used by the analysed operations."""
    cm = scan.callmap(cx.lib)
    f = cx.lib.fns.get(path)
    return f is not None and not f.get("pub") and not scan.only_from(cm, path, known)


def consts(cx):
    return {c["path"]: int(c["val"]["int"]) for c in cx.lib.d["consts"]
            if isinstance(c.get("val"), dict) and "int" in c["val"]}


class Fresh(Pred):
    """Entry i is one that all reads take for an unassigned variable."""

    def __init__(self, unassigned):
        self.unassigned = unassigned

    def check(self, st, a, i, v):
        return self.unassigned(st, i, t.sel(a, i, st.decide))


class Old(Pred):
    """Entry i is the one that was there in an older array (the version)."""

    def __init__(self, old):
        self.old = old

    def check(self, st, a, i, v):
        return t.sel(a, i, st.decide) is t.sel(self.old, i, st.decide)

    def persists(self, st, v_old, v_new):
        return True


class Grown(AllRule):
    """The growing array: added entries are fresh and earlier ones old."""

    def __init__(self, cx, A, unassigned):
        self.cx, self.A = cx, A
        self.preds = {"FRESH": Fresh(unassigned), "OLD": Old(mk("pt", A))}

    def targets(self, eng, head, phis):
        a = eng.rd(head, ("P", self.A), ())
        yield a, "FRESH", ZERO
        yield a, "OLD", ZERO

    def loop_alls(self, eng, fr, h, head, phis, states, sigma):
        out = list(AllRule.loop_alls(self, eng, fr, h, head, phis, states, sigma))
        lo = t.length(mk("pt", self.A))
        for a, p, v in self.targets(eng, head, phis):
            for x, y in [(lo, t.length(a)), (ZERO, lo), (ZERO, self.n)]:
                out.append(mk("all", a, x, y, p, v))
        return out


def grow(cx, start, call, v, w, unassigned):
    for shrink in (False, True):
        grow1(cx, start, unassigned, shrink)


def grow1(cx, start, unassigned, shrink):
    A = mk("sym", "a0")
    n = mk("sym", "n")
    st = start()
    st.assume(t.le(ZERO, n))
    key = cx.key(RESIZE)
    lo = t.length(mk("pt", A))
    st.assume(t.le(n, lo) if shrink else t.le(lo, n))
    rule = Grown(cx, A, unassigned)
    rule.n = n
    st.preds = rule.preds
    st.add_all(mk("pt", A), ZERO, lo, "OLD", ZERO)
    i = cx.param(key, PA)
    e, _, outs = cx.run(key, args={i: A, 1 - i: n}, st=st, rule=rule, pr={}, exact=True)
    cx.ob(bool(outs), "c19:resize", "resize does not return", cx.where(RESIZE))
    for s, _ in outs:
        a = e.rd(s, ("P", A), ())
        cx.ob(s.decide(t.eq(t.length(a), n)) is True, "c19:resize-len", "the assignment does not "
              "have the requested number of variables", cx.where(RESIZE))
        s2 = s.copy()
        if s2.assume(t.le(lo, n)):
            cx.ob(s2.decide_all(mk("all", a, lo, n, "FRESH", ZERO)) is True, "c19:new",
                  "new variables are not unassigned", cx.where(RESIZE))
        cx.ob(old_kept(s, a, A, lo, n),
              "c19:kept", "resizing changes the values of other variables", cx.where(RESIZE))


def old_kept(s, a, A, lo, n):
    for lim in (lo, n):
        s2 = s.copy()
        if not s2.assume(t.le(lim, lo)) or not s2.assume(t.le(lim, n)):
            continue
        if s2.decide_all(mk("all", a, ZERO, lim, "OLD", ZERO)) is not True:
            return False
    return True
