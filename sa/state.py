"""Abstract states: memory, facts and the decision procedure over them.

A state maps memory bases to symbolic values and carries a set of facts (atomic predicates with
their truth value).  `decide` answers True/False only if the facts entail the answer; None means
"unknown" and never leads to a claim.
"""
from . import terms as t
from .terms import T, I, ONE, ZERO, TRUE, FALSE

SIGNED = {"sgn", "ssym"}


class Contradiction(Exception):
    pass


def implied_bounds(a):
    """Facts L <= 0 that hold for an atom by construction, as (const, dict)."""
    if a.op in ("and1", "b2i"):
        return ((-1, {a: 1}),)
    if a.op == "tr":
        return ((-((1 << a.args[1]) - 1), {a: 1}),)
    if a.op == "clamp":
        c, d = t.lin_parts(a.args[0])
        up = {x: -k for x, k in d.items()}
        up[a] = up.get(a, 0) + 1
        return ((-a.args[1], {a: 1}), (-c, up))
    if a.op == "shr" and a.args[1].op == "i":
        m = 1 << a.args[1].args[0]
        c, d = t.lin_parts(a.args[0])
        lo = {x: -k for x, k in d.items()}
        lo[a] = lo.get(a, 0) + m
        hi = dict(d)
        hi[a] = hi.get(a, 0) - m
        return ((-c, lo), (c - m + 1, hi))
    if a.op == "and" and a.args[1].op == "i":
        return ((-a.args[1].args[0], {a: 1}),)
    return ()


def persists(vnew, vold, st):
    """Whether literals true in vold are still true in vnew."""
    while vnew is not vold:
        if vnew.op == "asg":
            if st.assigned(vnew.args[0], t.shr(vnew.args[1], ONE)) is not False:
                return False
            vnew = vnew.args[0]
        else:
            return False
    return True


class State(object):
    __slots__ = ("mem", "facts", "lins", "ms", "alls", "preds", "dead")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.lins = {}
        self.ms = ()
        self.alls = {}
        self.preds = None

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.lins = dict(self.lins)
        s.ms = self.ms
        s.alls = self.alls
        s.preds = self.preds
        return s

    # ------------------------------------------------------------ deciding
    def decide(self, b):
        o = b.op
        if o == "bool":
            return bool(b.args[0])
        r = self.facts.get(b)
        if r is not None:
            return r
        if o == "not":
            r = self.decide(b.args[0])
            return None if r is None else not r
        if o == "andb":
            x = self.decide(b.args[0])
            y = self.decide(b.args[1])
            if x is False or y is False:
                return False
            if x is True and y is True:
                return True
            return None
        if o == "xorb":
            x = self.decide(b.args[0])
            y = self.decide(b.args[1])
            if x is None or y is None:
                return None
            return x != y
        if o == "le":
            c, d = t.lin_parts(b.args[0])
            if self.prove(c, d):
                return True
            if self.prove(1 - c, {x: -k for x, k in d.items()}):
                return False
            # strengthen with a known disequality
            return None
        if o == "eq":
            c, d = t.lin_parts(b.args[0])
            n = {x: -k for x, k in d.items()}
            if self.prove(c + 1, d) or self.prove(1 - c, n):
                return False
            if self.prove(c, d) and self.prove(-c, n):
                return True
            if c == 0 and len(d) == 2 and any(x.op == "tr" for x in d):
                xs = tuple(sorted(d, key=lambda x: x.id))
                if any(self.facts.get(t.mk("eqx", xs, k)) is True for k in (1, 2, 3)):
                    return False
            r = self._eq_subst(b)
            if r is None and c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1] \
                    and self._differ(*d):
                return False
            return r
        if o == "eqx":
            xs = b.args[0]
            if len(xs) == 2 and b.args[1]:
                if self.facts.get(t.eq_plain(xs[0], xs[1])) is True:
                    return False
            for k in (1, 2, 3):
                if k != b.args[1] and self.facts.get(t.mk("eqx", xs, k)) is True:
                    return False
            if len(xs) == 2 and self._differ(xs[0], t.bxor(xs[1], I(b.args[1]))):
                return False
            return self._eq_subst(b)
        if o == "tv":
            return self.truth(b.args[0], b.args[1])
        if o == "as":
            return self.assigned(b.args[0], b.args[1])
        if o == "all":
            return self.decide_all(b)
        return None

    def _differ(self, a, b):
        """Whether two literals have different values in some assignment."""
        vs = dict.fromkeys(f.args[0] for f in self.facts if f.op == "tv")
        na, nb = t.bxor(a, ONE), t.bxor(b, ONE)
        for v in vs:
            for x, y in ((a, b), (na, nb)):
                p, q = self._known_tv(v, x), self._known_tv(v, y)
                if p is not None and q is not None and p != q:
                    return True
        return False

    def _known_tv(self, v, c):
        r = self.facts.get(t.mk("tv", v, c))
        if r is not None:
            return r
        n = t.bxor(c, ONE)
        if self.facts.get(t.mk("tv", v, n)) is True:
            return False
        r = self._all_tv(v, c)
        if r is None and self._all_tv(v, n) is True:
            return False
        return r

    def _eq_subst(self, b):
        """Tries to settle an equation using known equations x = y between atoms."""
        m = self._eqs(b)
        if not m:
            return None
        b2 = t.subst(b, m)
        if b2 is b:
            return None
        if b2.op == "bool":
            return bool(b2.args[0])
        return self.facts.get(b2)

    def _eqs(self, b):
        m = {}
        lv = set(atoms_of(b))
        for f, v in self.facts.items():
            if v and f.op == "eq":
                c, d = t.lin_parts(f.args[0])
                if len(d) <= 2:
                    for x, k in d.items():
                        if k in (1, -1) and x in lv and x not in m:
                            rest = dict(d)
                            del rest[x]
                            y = t.from_parts(-k * c, {z: -k * q for z, q in rest.items()})
                            if y in m or (y.op != "i" and any(z in m for z in atoms_of(y))):
                                continue
                            m[x] = y
                            break
        return m

    def prove(self, c, d, depth=4, seen=None):
        """Proves c + sum(d) <= 0 by adding up known inequalities."""
        bad = None
        for x, k in d.items():
            if k > 0 or x.op in SIGNED:
                bad = x
                break
        if bad is None and c <= 0:
            return True
        if depth == 0:
            return False
        if seen is None:
            seen = set()
        key = (c, tuple(sorted(((x.id, k) for x, k in d.items()))))
        if key in seen or len(seen) > 400:
            return False
        seen.add(key)
        cands = [bad] if bad is not None else list(d)
        for x in cands:
            k = d[x]
            for fc, fd in self.lins.get(x, ()):
                fk = fd[x]
                if (fk > 0) == (k > 0):
                    if self._step(c, d, k, fc, fd, fk, depth, seen):
                        return True
            for fc, fd in implied_bounds(x):
                fk = fd.get(x, 0)
                if fk and (fk > 0) == (k > 0):
                    if self._step(c, d, k, fc, fd, fk, depth, seen):
                        return True
        for x, k in d.items():
            if x.op == "shr" and x.args[1] is ONE:
                # 2*shr(y,1) + and(y,1) == y, where something is known about the last bit
                p = t.mk("and1", x.args[0])
                if p in self.lins:
                    yc, yd = t.lin_parts(x.args[0])
                    g = 1 if k > 0 else -1
                    fd = {v: -g * w for v, w in yd.items()}
                    fd[x] = fd.get(x, 0) + 2 * g
                    fd[p] = fd.get(p, 0) + g
                    if (fd[x] > 0) == (k > 0) and \
                            self._step(c, d, k, -g * yc, fd, fd[x], depth, seen):
                        return True
        return False

    def _step(self, c, d, k, fc, fd, fk, depth, seen):
        k, fk = abs(k), abs(fk)
        nd = {x: v * fk for x, v in d.items()}
        for x, v in fd.items():
            w = nd.get(x, 0) - k * v
            if w:
                nd[x] = w
            else:
                nd.pop(x, None)
        return self.prove(c * fk - k * fc, nd, depth - 1, seen)

    # ------------------------------------------------------------ partial assignments
    def same(self, a, b):
        """Whether two integers are known equal."""
        return a is b or self.decide(t.eq(a, b)) is True

    def truth(self, v, c):
        """Truth of literal code c in assignment v: True, False (not true) or None."""
        f = self.facts.get(t.mk("tv", v, c))
        if f is not None:
            return f
        n = t.bxor(c, ONE)
        if self.facts.get(t.mk("tv", v, n)) is True:
            return False
        var = t.shr(c, ONE)
        if self.facts.get(t.mk("as", v, var)) is False:
            return False
        if v.op == "asg":
            l = v.args[1]
            if self.same(c, l):
                return True
            if self.same(n, l):
                return False
            v0 = v.args[0]
            e = self.decide(t.eq(var, t.shr(l, ONE)))
            if e is False:
                return self.truth(v0, c)
            if self.assigned(v0, t.shr(l, ONE)) is False and self.assigned(v0, var) is True:
                return self.truth(v0, c)
        elif v.op == "uns":
            e = self.decide(t.eq(var, v.args[1]))
            if e is True:
                return False
            if e is False:
                return self.truth(v.args[0], c)
            if self.truth(v.args[0], c) is False:
                return False
        # equal codes under another name
        for f, val in self.facts.items():
            if f.op == "tv" and f.args[0] is v and f.args[1] is not c:
                if val and self.decide(t.eq(f.args[1], c)) is True:
                    return True
                if val and self.decide(t.eq(f.args[1], n)) is True:
                    return False
        return self._all_tv(v, c)

    def _all_tv(self, v, c):
        # element of an array all of whose elements are true / false
        if c.op == "fld" and c.args[0].op == "sel":
            e = c.args[0]
        elif c.op == "sel":
            e = c
        else:
            return None
        a, i = e.args
        for (x, lo, hi, p, pv), val in self.alls.items():
            if val and x is a and p in ("T", "TS", "F") and (pv is v or persists(v, pv, self)):
                if self.decide(t.le(lo, i)) is True and self.decide(t.lt(i, hi)) is True:
                    return p != "F"
        return None

    def assigned(self, v, var):
        f = self.facts.get(t.mk("as", v, var))
        if f is not None:
            return f
        nf = 0
        for f, val in self.facts.items():
            if f.op == "tv" and f.args[0] is v:
                fv = t.shr(f.args[1], ONE)
                if fv is var:
                    if val:
                        return True
                    # both polarities not true
                    if self.facts.get(t.mk("tv", v, t.bxor(f.args[1], ONE))) is False:
                        return False
        if v.op == "asg":
            lv = t.shr(v.args[1], ONE)
            e = self.decide(t.eq(var, lv))
            if e is True:
                return True
            a = self.assigned(v.args[0], var)
            if a is True or e is False:
                return a
        elif v.op == "uns":
            e = self.decide(t.eq(var, v.args[1]))
            if e is True:
                return False
            a = self.assigned(v.args[0], var)
            if a is False or e is False:
                return a
        return None

    # ------------------------------------------------------------ quantified facts
    def decide_all(self, b, depth=2):
        """all(A, lo, hi, P, V): P holds for the elements lo..hi of A (in assignment V)."""
        a, lo, hi, p, v = b.args
        if self.decide(t.le(hi, lo)) is True:
            return True
        pred = (self.preds or {}).get(p)
        if p == "PFX" and self._same_range(v, a, lo, hi):
            return True
        if a.op == "cat" and lo is ZERO and hi is t.length(a) and depth and \
                getattr(pred, "ELEMENTWISE", False) and all(
                self.decide_all(t.mk("all", x, ZERO, t.length(x), p, v), depth - 1) is True
                for x in a.args):
            return True
        for (x, l2, h2, p2, v2), val in self.alls.items():
            if not val or p2 != p:
                continue
            if not (v2 is v or (pred is not None and pred.persists(self, v2, v))):
                continue
            if x is not a and not self._same_range(x, a, l2, h2):
                if self.decide(t.le(l2, lo)) is True and self.decide(t.le(hi, h2)) is True and \
                        self._same_range(x, a, lo, hi):
                    return True
                continue
            if self.decide(t.le(l2, lo)) is True and self.decide(t.le(hi, h2)) is True:
                return True
            if depth and self.decide(t.le(l2, lo)) is True and h2 is not lo \
                    and self.decide(t.le(lo, h2)) is True \
                    and self.decide_all(t.mk("all", a, h2, hi, p, v), depth - 1) is True:
                return True
            if pred is None:
                continue
            # one more element at either end
            if self.decide(t.le(l2, lo)) is True and self.same(h2, t.sub(hi, ONE)):
                if pred.check(self, a, h2, v):
                    return True
            if self.decide(t.le(hi, h2)) is True and self.same(l2, t.add(lo, ONE)):
                if pred.check(self, a, lo, v):
                    return True
        if pred is not None:
            n = t.sub(hi, lo)
            if n.op == "i" and n.args[0] <= 3:
                if all(pred.check(self, a, t.add(lo, I(k)), v) for k in range(n.args[0])):
                    return True
        return None

    def _same_range(self, x, a, lo, hi):
        """Whether arrays x and a agree on lo..hi."""
        for _ in range(20):
            if x is a:
                return True
            if a.op == "store" and (self.decide(t.lt(a.args[1], lo)) is True
                                    or self.decide(t.le(hi, a.args[1])) is True):
                a = a.args[0]
                continue
            if x.op == "store" and (self.decide(t.lt(x.args[1], lo)) is True
                                    or self.decide(t.le(hi, x.args[1])) is True):
                x = x.args[0]
                continue
            if a.op in ("push", "resize") and self.decide(t.le(hi, t.length(a.args[0]))) is True:
                a = a.args[0]
                continue
            if x.op in ("push", "resize") and self.decide(t.le(hi, t.length(x.args[0]))) is True:
                x = x.args[0]
                continue
            if a.op == "sub" and a.args[1] is ZERO and self.decide(t.le(hi, a.args[2])) is True:
                a = a.args[0]
                continue
            if x.op == "sub" and x.args[1] is ZERO and self.decide(t.le(hi, x.args[2])) is True:
                x = x.args[0]
                continue
            return False
        return False

    def add_all(self, a, lo, hi, p, v, val=True):
        self.alls = dict(self.alls)
        self.alls[(a, lo, hi, p, v)] = val

    # ------------------------------------------------------------ assuming
    def assume(self, b, val=True):
        """Adds b == val; returns False if that is impossible."""
        o = b.op
        if o == "bool":
            return bool(b.args[0]) == val
        if o == "not":
            return self.assume(b.args[0], not val)
        d = self.decide(b)
        if d is not None:
            if d == val and o in ("tv", "as"):
                self.facts[b] = val
            return d == val
        if o == "andb" and val:
            return self.assume(b.args[0]) and self.assume(b.args[1])
        if o == "andb":
            if self.decide(b.args[0]) is True:
                return self.assume(b.args[1], False)
            if self.decide(b.args[1]) is True:
                return self.assume(b.args[0], False)
            self.facts[b] = False
            return True
        if o == "le":
            if not val:
                return self.assume(t.le0(t.sub(ONE, b.args[0])), True)
            L = b.args[0]
            self._add_le(L)
            # a <= b and a != b
            e = t.eq_plain(L, ZERO)
            if e.op == "eq" and self.facts.get(e) is False:
                self._add_le(t.add(L, ONE))
            return True
        if o == "eq":
            self.facts[b] = val
            L = b.args[0]
            N = t.scale(L, -1)
            if val:
                self._add_lin(L)
                self._add_lin(N)
            else:
                c, dd = t.lin_parts(L)
                if self.prove(c, dd):
                    self._add_le(t.add(L, ONE))
                elif self.prove(-c, {x: -k for x, k in dd.items()}):
                    self._add_le(t.add(N, ONE))
            return True
        self.facts[b] = val
        return True

    def _add_le(self, L):
        f = t.le0(L)
        if f.op == "le":
            self.facts[f] = True
            self._add_lin(f.args[0])

    def _add_lin(self, L):
        c, d = t.lin_parts(L)
        for x in d:
            self.lins[x] = self.lins.get(x, ()) + ((c, d),)

    def rebuild_lins(self):
        self.lins = {}
        for f, v in self.facts.items():
            if f.op == "le" and v:
                self._add_lin(f.args[0])
            elif f.op == "eq" and v:
                self._add_lin(f.args[0])
                self._add_lin(t.scale(f.args[0], -1))


def atoms_of(b):
    """All sub-terms that are integer atoms of b (transitively)."""
    out = set()
    stack = [b]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in out:
            continue
        out.add(x)
        stack.extend(a for a in x.args if isinstance(a, (T, tuple)))
    return out
