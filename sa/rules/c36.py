"""Literal order of learned clauses and the backtrack level, by abstract interpretation of conflict
analysis with order facts.

analyze_conflict is analysed from an arbitrary state (derivation of the clause by contract, its
minimisation followed through every loop).  Order facts about the derived clause are tracked: a
list sorted by trail index stays ordered when literals are dropped from it, and a literal appended
to an ordered list keeps it ordered if it follows the last one in a sorted list that is visited in
order (inductively proved loop facts).  At the call of backtrack_to_level: a clause of one literal
goes to the top level; in a longer one the first literal is the derived implied literal, the other
literals descend by trail index from the second one on, and the target is the level of the second
literal's assignment.  On every path that returns the same literal array is then stored, and its
first literal is assigned immediately, at the level reached, with the stored clause as its reason."""
from .common import *
from .. import prims, models
from . import scan, c09
from .c09 import ADD

RULE = "order of the derived clause at backtracking, stored clause and assignment after it"
ASSUMES = ["the derived clause ends in its only literal of the current level (C35)",
           "the trail orders assignments by level (C04, C07)", "backtracking (C03)",
           "storing clauses (C31)"]


def litvar_index(ti, l, st):
    return t.sel(ti, t.shr(l, ONE), st.decide)


class Asc(Pred):
    """Each element's key is at least the key of the element before it."""

    def __init__(self, rule, sign):
        self.rule, self.sign = rule, sign

    def check(self, st, a, i, v):
        x = self.rule.key(st, v, t.sel(a, i, st.decide))
        y = self.rule.key(st, v, t.sel(a, t.sub(i, ONE), st.decide))
        if self.rule.leq(st, *((y, x) if self.sign > 0 else (x, y))):
            return True
        return self.follows(st, a, i, v)

    def follows(self, st, a, i, v):
        """The element is the next one of a sorted list, the one before is bounded by it."""
        x = t.sel(a, i, st.decide)
        if x.op != "sel":
            return False
        d = self.rule.direction(x.args[0])
        if d != self.sign:
            return False
        inner = a
        while inner.op == "push" and st.decide(t.le(i, t.length(inner.args[0]))) is True \
                and inner.args[0].op != "push":
            inner = inner.args[0]
            break
        n = t.length(inner)
        return st.decide_all(mk("all", inner, ZERO, n, "BEF", mk("ver", x.args[0], x.args[1], v))) \
            is True


class Before(Pred):
    """The element occurs before position i of a sorted list."""

    def __init__(self, rule):
        self.rule = rule

    def check(self, st, a, k, v):
        src, i, ti = v.args
        x = t.sel(a, k, st.decide)
        return x.op == "sel" and x.args[0] is src and st.decide(t.lt(x.args[1], i)) is True

    def persists(self, st, old, new):
        return old.op == new.op == "ver" and old.args[0] is new.args[0] \
            and old.args[2] is new.args[2] and st.decide(t.le(old.args[1], new.args[1])) is True


class R(Rule):
    def __init__(self, cx):
        self.cx = cx
        self.sorted = {}
        self.preds = {"ASC": Asc(self, 1), "DESC": Asc(self, -1), "BEF": Before(self)}
        self.ti = None

    def key(self, st, ti, l):
        return litvar_index(ti, l, st)

    def leq(self, st, a, b):
        return st.decide(t.le(a, b)) is True

    def direction(self, a):
        """1 / -1: sorted by trail index up / down."""
        while a.op == "sub":
            a = a.args[0]
        if a.op == "rev":
            d = self.direction(a.args[0])
            return None if d is None else -d
        return self.sorted.get(a, (None,))[0]

    def on_sort(self, eng, st, c, base, path, old, new):
        name = c.path.rsplit("::", 1)[1]
        if self.ti is None or len(c.args) < 2:
            return
        ti = self.ti
        x, y = mk("sym", "sort.x"), mk("sym", "sort.y")
        f, fty = c.args[1], c.argtys[1]
        s = st.copy()

        def boxed(s, v, n):
            b = ("T", c.fr.ctx, c.block, n)
            s.mem[b] = v
            return eng.ref(b, ())
        if "by_key" in name or "cached_key" in name:
            r = models.call_value(eng, s, c, f, fty, [boxed(s, x, "x")], ["&starlit::lit::Lit"])
            d = None
            for s2, v in r or ():
                k = self.one(v, litvar_index(ti, x, s2), s2)
                if k is None or d not in (None, k):
                    return
                d = k
        elif "_by" in name:
            r = models.call_value(eng, s, c, f, fty, [boxed(s, x, "x"), boxed(s, y, "y")],
                                  ["&starlit::lit::Lit", "&starlit::lit::Lit"])
            kx, ky = litvar_index(ti, x, s), litvar_index(ti, y, s)
            d = None
            for s2, v in r or ():
                if v.op != "en":
                    return
                k = v.args[0]
                lt = s2.decide(t.lt(kx, ky))
                gt = s2.decide(t.lt(ky, kx))
                if k == 1:
                    if lt is not False or gt is not False:
                        return
                    continue
                e = (1 if k == 0 else -1) if lt is True else (-1 if k == 0 else 1) if gt else None
                if e is None or d not in (None, e):
                    return
                d = e
        else:
            return
        if d:
            self.sorted[new] = (d, old)

    def one(self, v, k, st):
        if eqv(st, v, k):
            return 1
        if v.op == "st" and len(v.args) == 1:
            if eqv(st, v.args[0], k):
                return -1       # cmp::Reverse
        return None

    def loop_alls(self, eng, fr, h, head, phis, states, sigma):
        if self.ti is None or not self.sorted:
            return
        ti = self.ti
        ints = [ph for ph, _ in int_bounds(head, phis, states, sigma)]
        srcs = set(self.sorted)
        for s in states:
            for x in list(srcs):
                for v in s.mem.values():
                    for y in subterms(v):
                        if y.op == "sub" and y.args[0] is x:
                            srcs.add(y)
        arrs = [ph for ph in phis.values()
                if any(g[ph].op in ("vnil", "push", "arr", "phi") for g in sigma if ph in g)]
        for a in arrs:
            n = t.length(a)
            yield mk("all", a, ONE, n, "ASC", ti)
            yield mk("all", a, ONE, n, "DESC", ti)
            for src in srcs:
                for j in ints:
                    yield mk("all", a, ZERO, n, "BEF", mk("ver", src, j, ti))

    # ---------------------------------------------------------- order of a list
    def ordered(self, st, a, lo, hi):
        """1 / -1 if the elements lo..hi ascend / descend by trail index, 0 if there are fewer
        than two, None if unknown."""
        D = st.decide
        if D(t.le(hi, t.add(lo, ONE))) is True:
            return 0
        if self.direction(a) is not None:
            return self.direction(a)
        if a.op == "sub":
            return self.ordered(st, a.args[0], t.add(lo, a.args[1]), t.add(hi, a.args[1]))
        if a.op == "rev":
            n = t.length(a.args[0])
            d = self.ordered(st, a.args[0], t.sub(n, hi), t.sub(n, lo))
            return None if d is None else -d
        if a.op == "push" and D(t.le(hi, t.length(a.args[0]))) is True:
            return self.ordered(st, a.args[0], lo, hi)
        if a.op == "store" and (D(t.lt(a.args[1], lo)) is True or D(t.le(hi, a.args[1])) is True):
            return self.ordered(st, a.args[0], lo, hi)
        if a.op == "cat":
            n = t.length(a.args[0])
            if D(t.le(hi, n)) is True:
                return self.ordered(st, a.args[0], lo, hi)
            if D(t.le(n, lo)) is True:
                return self.ordered(st, a.args[1], t.sub(lo, n), t.sub(hi, n))
        for p, d in (("ASC", 1), ("DESC", -1)):
            if st.decide_all(mk("all", a, t.add(lo, ONE), hi, p, self.ti)) is True:
                return d
        return None


def subterms(v):
    out, stack = set(), [v]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, t.T) and x not in out:
            out.add(x)
            stack.extend(a for a in x.args if isinstance(a, (t.T, tuple)))
    return out


def run(cx):
    key = cx.key(ANALYZE)
    w = cx.where(ANALYZE)
    pr = c09.analysis_contracts(cx, keep=("starlit::minimize::minimize",))
    for p in ("literal_index_is_redundant_rec", "literal_index_is_redundant_rec_uncached",
              "literal_index_is_redundant_iter"):
        pr["starlit::minimize::" + p] = c09.forget(cx)
    rule = R(cx)
    deriving = scan.deriving(cx)
    ip, ia = cx.param(key, PROP), cx.param(key, CA)
    derive0 = pr[deriving]
    di = cx.lay.elem(CA, "derived_clause", "Vec<starlit::lit::Lit>")
    a = [mk("sym", "a%d" % i) for i in range(cx.lib.body(key).argc)]

    def derive(eng, st, c):
        b, p = eng.deref(st, arg(c, CA))
        out = derive0(eng, st, c)
        for s, _ in out:
            d = eng.rd(s, b, p + di)
            s.assume(t.lt(ZERO, t.length(d)))
            rule.ti = View(cx, eng.getbase(s, P(a[ip])), PROP).trail.trail_index
            event(s, "derived", d)
        return out

    bt0 = pr[BACKTRACK]

    def backtrack(eng, st, c):
        v = arg_view(eng, cx, st, c, PROP)
        event(st, "at", eng.rd(st, P(a[ia]), di))
        judge(cx, rule, eng, st, c, v, eng.rd(st, P(a[ia]), di), at(c.fr, c.span))
        out = bt0(eng, st, c)
        return out

    def assign(eng, st, c):
        step = [x for x, ty in zip(c.args, c.argtys) if ty == STEP]
        tr = arg(c, TRAIL)
        D = View(cx, eng.read(st, tr), TRAIL).decisions
        event(st, "assign", step[0], D)
        return hav_call(eng, st, c)
    pr[deriving] = derive
    pr[BACKTRACK] = backtrack
    pr[ASSIGN_RAW] = assign
    pr[ADD] = verbatim_contract(cx)
    e, _, outs = cx.run(key, args=dict(enumerate(a)), rule=rule, pr=pr)
    cx.ob(bool(outs), "c36:returns", "conflict analysis never returns", w)
    for s, _ in outs:
        after(cx, e, s, w)


def judge(cx, rule, eng, st0, c, v, D, w):
    lvl = arg(c, "DecisionLevel")
    orig = events(st0, "derived")
    cx.ob(len(orig) == 1, "c36:derived", "backtracking without one derived clause", w)
    if len(orig) != 1:
        return
    O = orig[0].args[1]
    ti, S = v.trail.trail_index, v.trail.steps
    rule.ti = ti
    for st, k in split_len(st0, D, 2):
        if k == 0:
            cx.ob(False, "c36:empty", "the derived clause may be empty when backtracking", w)
            continue
        d0 = t.sel(D, ZERO, st.decide)
        cx.ob(uip(rule, st, d0, O), "c36:first", "the first literal of the learned clause is not "
              "known to be the one that becomes implied", w)
        if k == 1:
            cx.ob(eqv(st, lvl, ZERO), "c36:unit", "a learned unit clause does not backtrack to the "
                  "top level", w)
            continue
        d1 = t.sel(D, ONE, st.decide)
        want = View(cx, t.sel(S, litvar_index(ti, d1, st), st.decide), STEP).decision_level
        cx.ob(eqv(st, lvl, want), "c36:level", "the backtrack level is not the level of the second "
              "literal of the learned clause", w)
        d = rule.ordered(st, D, ONE, t.length(D))
        cx.ob(d in (-1, 0), "c36:second", "the second literal of the learned clause is not known "
              "to have the highest level of the rest", w)


def uip(rule, st, x, O):
    """x is the last literal of the derived clause O, or the one with the largest trail index."""
    n = t.length(O)
    if eqv(st, x, t.sel(O, t.sub(n, ONE), st.decide)):
        return True
    if x.op == "sel":
        a, i = x.args
        if a is O and eqv(st, i, t.sub(n, ONE)):
            return True
        q = rule.sorted.get(a)
        if q and q[1] is O:
            return eqv(st, i, t.sub(n, ONE) if q[0] > 0 else ZERO)
        if a.op == "rev" and a.args[0] in rule.sorted and rule.sorted[a.args[0]][1] is O:
            return eqv(st, i, ZERO if rule.sorted[a.args[0]][0] > 0 else t.sub(n, ONE))
    return False


def after(cx, eng, s, w):
    evs = [m for m in events(s) if m.args[0] in ("backtrack", "store", "assign", "derived", "at")]
    names = [m.args[0] for m in evs]
    ok = names[:4] == ["derived", "at", "backtrack", "store"] and names.count("store") == 1 \
        and names.count("backtrack") == 1
    cx.ob(ok, "c36:once", "an analysed conflict does not derive, backtrack and store once, in this "
          "order (%s)" % ", ".join(names), w)
    if not ok:
        return
    lits = evs[3].args[1]
    cx.ob(eqv(s, lits, evs[1].args[1]), "c36:same", "the stored clause is not the one that was "
          "derived and ordered before backtracking", w)
    asg = evs[4:]
    for st, k in split_len(s, lits, 2):
        if k in (0, 1):
            cx.ob(not asg, "c36:unit-again", "a learned unit clause is assigned twice", w)
            continue
        cx.ob(len(asg) == 1, "c36:assign", "the implied literal of a learned clause is not "
              "assigned exactly once", w)
        if len(asg) != 1:
            continue
        step = View(cx, asg[0].args[1], STEP)
        l0, l1 = t.sel(lits, ZERO, st.decide), t.sel(lits, ONE, st.decide)
        cx.ob(eqv(st, step.assigned_lit, l0), "c36:assign:first", "another literal than the first "
              "one of the learned clause is assigned", w)
        cx.ob(eqv(st, step.decision_level, t.sub(t.length(asg[0].args[2]), ONE)),
              "c36:assign:level", "the implied literal is not recorded at the level reached by "
              "backtracking", w)
        r = step.reason
        ok = False
        if r.op == "en":
            vs = cx.lay.adt(REASON)[1]["variants"]
            nm = vs[r.args[0]]["name"]
            if k == 2:
                ok = nm == "Binary" and eqv(st, r.args[1], l1)
            else:
                ok = nm == "Long" and is_new(r.args[1])
        cx.ob(ok, "c36:assign:reason", "the learned clause is not recorded as the reason of the "
              "implied literal", w)


def is_new(x):
    return "newclause" in str(x)
