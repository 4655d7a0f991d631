"""Compaction of clause storage and its reference map, by abstract interpretation.

Compaction is analysed with the iteration over clauses (C38) as a contract: each further live clause
lies behind the one before, and the words from the position of the iteration on must not have been
overwritten when it goes on.  Ghost counters hold the words kept so far and the end of the last clause;
at every back edge exactly the next clause has to have been moved, as a whole, to directly behind the
words kept so far, and a gap has to have been recorded exactly if there are words between the clauses,
with its bounds and the distance by which the clause moves.  In the end the storage is cut to the words
kept, with nothing counted as released.  The lookup is analysed over an arbitrary sorted list of gaps:
with the last gap that starts at or before a reference, it yields nothing iff that gap contains the
reference, and else the reference moved by the gap's distance."""
from .arena import *

RULE = "one clause moved and its gap recorded per iteration (ghost counters); lookup by last gap"
ASSUMES = ["iteration yields the live clauses in order (C38)", "references are 32 bit words that the "
           "storage does not outgrow during compaction"]
BOTH_PROFILES = False

GAP = "starlit::clause_arena::GcMapGap"
MAP = "starlit::clause_arena::ClauseRefGcMap"
W, E, R, N = ("G", "kept"), ("G", "end"), ("G", "clause"), ("G", "next")


def run(cx):
    ar = Arena(cx)
    cx.ob(ar.ok and ar.cnt is not None, "c37:storage", "the clause storage is not recognised")
    if not ar.ok or ar.cnt is None:
        return
    hit = False
    for path, f, key in ar.methods():
        if key is not None and f.get("output") == MAP and f["pub"]:
            compact(cx, ar, path, key)
            hit = True
    cx.ob(hit, "c37:compact", "the compaction of the storage is not recognised")
    hit = False
    for p, f in sorted(cx.lib.fns.items()):
        if f.get("self_ty") == MAP and f["pub"] and f.get("output") == "std::option::Option<%s>" % REF:
            lookup(cx, p)
            hit = True
    cx.ob(hit, "c37:lookup", "the lookup of moved references is not recognised")


# ------------------------------------------------------------------ compaction
class Compact(Rule):
    def __init__(self, cx, ar, path, base, words):
        self.cx, self.ar, self.path, self.base, self.words0 = cx, ar, path, base, words
        self.vecs = set()
        self.items = 0

    def size(self, r):
        return t.add(I(self.ar.H + 1), mk("clen", r))

    def mine(self, eng, st, x, words=False):
        b, p = eng.deref(st, x)
        return b == self.base and (not words or (bool(p) and p[0][1] == self.ar.buf))

    # ---- calls
    def on_call(self, eng, st, c):
        rec = self.cx.lib.fns.get(c.path) or {}
        ins = rec.get("inputs") or ()
        if (rec.get("self_ty") or "").startswith(ARENA + "<") and c.args and self.mine(eng, st, c.args[0]):
            opt = "std::option::Option<%s>" % REF
            if rec.get("output") == opt and len(ins) == 2:
                if ins[1] == "&mut " + opt:
                    return self.next(eng, st, c, eng.read(st, c.args[1]), c.args[1])
                if ins[1] == "usize":
                    return self.step(eng, st, c, c.args[1], True, None)
            if rec.get("output") == "usize" and len(ins) == 2 and ins[1] == REF:
                return self.len(eng, st, c)
        if c.path == "core::slice::<impl [T]>::copy_within" and self.mine(eng, st, c.args[0], True):
            return self.copy(eng, st, c)
        if c.path == "std::vec::Vec::<T, A>::push" and c.argtys[1] == GAP:
            b, p = eng.deref(st, c.args[0])
            self.vecs.add((b, p))
            g = View(self.cx, c.args[1], GAP)
            event(st, "gap", g.start, g.end, g.shift)
        return None

    def written(self, st):
        """The end of the words written so far."""
        return t.add(st.mem[W], self.size(st.mem[R])) if events(st, "copied") else st.mem[W]

    def canon(self, st, x):
        for k in (R, N):
            y = st.mem.get(k)
            if y is not None and st.decide(t.eq(x, y)) is True:
                return y
        return x

    def next(self, eng, st, c, prev, ptr):
        out = []
        for s, some_ in eng.fork(st, t.eq(t.disc(prev), ONE)):
            if some_:
                p = self.canon(s, t.vfld(prev, 1, 0))
                lower = t.add(p, self.size(p))
                safe = s.decide(t.le(self.written(s), p)) is True
            else:
                lower = ZERO
                safe = self.written(s) is ZERO
            out += self.step(eng, s, c, lower, safe, ptr)
        return out

    def step(self, eng, st, c, lower, safe, ptr):
        ob, w = self.cx.ob, at(c.fr, c.span)
        if ptr is None:
            safe = st.decide(t.le(self.written(st), lower)) is True
            ob(st.decide(t.eq(st.mem[E], lower)) is True, "c37:order", "the search for the next clause "
               "does not go on at the end of the last one", w)
        ob(safe, "c37:overwritten", "the iteration goes on at a position that may have been "
           "overwritten", w)
        end = st.copy()
        event(end, "end")
        r = eng.fresh(c, "found")
        n = t.length(self.words0)
        st.assume(t.le(lower, r))
        st.assume(t.le(ONE, mk("clen", r)))
        st.assume(t.le(t.add(r, self.size(r)), n))
        if not events(st, "more"):
            event(st, "more")
            st.mem[R] = r
        else:
            ob(not events(st, "two"), "c37:skipped", "a clause is passed over without being moved", w)
            event(st, "two")
            st.mem[N] = r
        self.items += 1
        out = []
        for s, v in ((end, models.NONE), (st, models.some(r))):
            if ptr is not None:
                b, p = eng.deref(s, ptr)
                eng.wr(s, b, p, v, c.fr, c.span)
            out.append((s, v))
        return out

    def len(self, eng, st, c):
        r = self.canon(st, c.args[1])
        self.cx.ob(st.decide(t.le(self.written(st), r)) is True, "c37:length", "the length "
            "of a clause is asked for after its words may have been overwritten", at(c.fr, c.span))
        return [(st, mk("clen", r))]

    def copy(self, eng, st, c):
        lo, hi = models.idx_range(eng, st, c.argtys[1], c.args[1], t.length(self.words0))
        dest = c.args[2]
        w = at(c.fr, c.span)
        r = st.mem.get(R)
        ob = self.cx.ob
        ok = r is not None and events(st, "more") and st.decide(t.eq(lo, r)) is True and \
            st.decide(t.eq(hi, t.add(r, self.size(r)))) is True
        ob(bool(ok), "c37:moved:clause", "the words that are moved are not those of the next clause", w)
        ob(st.decide(t.eq(dest, st.mem[W])) is True, "c37:moved:to", "a clause is not moved to directly "
           "behind the clauses kept so far", w)
        ob(not events(st, "copied"), "c37:moved:once", "a clause is moved twice", w)
        if r is not None:
            event(st, "copied", r)
        return [(st, t.UNIT)]

    def on_write(self, eng, st, base, path, new, fr, span):
        if (base, path) in self.vecs and new.op not in ("push", "phi"):
            self.cx.ob(False, "c37:gaps", "recorded gaps are changed", at(fr, span))
        if base == self.base and (not path or path[0][1] == self.ar.buf) and len(path) > 1:
            self.cx.ob(False, "c37:words", "words of the storage are changed", at(fr, span))

    # ---- one clause
    def on_backedge(self, eng, st, fr, h):
        if fr.parent is None:
            self.settle(eng, st, at(fr, fr.body.blocks[h]["sp"]))

    def settle(self, eng, st, w):
        ob, D = self.cx.ob, st.decide
        if not events(st, "more"):
            return
        r, kept, end = st.mem[R], st.mem[W], st.mem[E]
        if not events(st, "copied"):
            ob(D(t.eq(r, kept)) is True, "c37:kept", "a clause is neither moved to behind the "
               "clauses kept so far nor there already", w)
        gaps = events(st, "gap")
        same = D(t.eq(r, end))
        if same is True:
            ob(not gaps, "c37:gap:none", "a gap is recorded where there is none", w)
        else:
            ok = len(gaps) == 1 and same is False and self.gap(st, gaps[0], end, r, t.sub(r, kept))
            ob(ok, "c37:gap", "the gap between two clauses is not recorded with its bounds and the "
               "distance by which the clause moves", w)
        st.mem[W] = t.add(kept, self.size(r))
        st.mem[E] = t.add(r, self.size(r))
        two = bool(events(st, "two"))
        st.ms = tuple(m for m in st.ms if m.args[0] not in ("copied", "gap", "more", "two"))
        st.mem.pop(R)
        if two:
            event(st, "more")
            st.mem[R] = st.mem.pop(N)

    def gap(self, st, m, lo, hi, d):
        return all(st.decide(t.eq(x, y)) is True for x, y in zip(m.args[1:4], (lo, hi, d)))

    def loop_candidates(self, eng, fr, h, head, phis, states):
        out = []
        g = {loc[0]: ph for loc, ph in phis.items() if loc[0] in (W, E, R)}
        val = {k: g.get(k) or states[0].mem.get(k) for k in (W, E, R)}
        k, e, r = val[W], val[E], val[R]
        if k is not None and e is not None:
            out.append(t.le(k, e))
        if r is not None:
            out += [t.le(e, r), t.le(ONE, mk("clen", r)),
                    t.le(t.add(r, self.size(r)), t.length(self.words0))]
        out.append(t.le(e, t.length(self.words0)))
        for loc, ph in phis.items():
            if loc[0] not in g:
                for x in (k, e, r):
                    if x is not None:
                        out.append(t.eq(ph, x))
                if k is not None and e is not None:
                    out.append(t.eq(ph, t.sub(e, k)))
        return out


def compact(cx, ar, path, key):
    ps = cx.params(key)
    me = [i for i, ty in enumerate(ps) if ARENA in ty][0]
    base = P(mk("sym", "a%d" % me))
    words = ar.words(None, mk("pt", mk("sym", "a%d" % me)))
    rule = Compact(cx, ar, path, base, words)
    st = State()
    st.mem[W] = ZERO
    st.mem[E] = ZERO
    e, a, outs = cx.run(key, st=st, rule=rule, pr={})
    w = cx.where(path)
    cx.ob(bool(outs), "c37:returns", "compaction never returns", w)
    cx.ob(rule.items > 0, "c37:iterates", "compaction does not visit the clauses", w)
    for s, r in outs:
        rule.settle(e, s, w) if not events(s, "end") else None
        cx.ob(bool(events(s, "end")) and not events(s, "more"), "c37:all", "compaction ends before all "
              "clauses were visited", w)
        n = t.length(words)
        gaps = events(s, "gap")
        kept, end = s.mem[W], s.mem[E]
        same = s.decide(t.eq(end, n))
        if same is True:
            cx.ob(not gaps, "c37:end:none", "a gap is recorded at the end where there is none", w)
        else:
            cx.ob(len(gaps) == 1 and same is False and rule.gap(s, gaps[0], end, n, t.sub(n, kept)),
                  "c37:end:gap", "the gap at the end of the storage is not recorded", w)
        after = e.rd(s, base, (("f", ar.buf, ar.n),))
        cut = after is words or (after.op == "sub" and after.args[0] is words and after.args[1] is ZERO)
        cx.ob(cut and s.decide(t.eq(count(after), kept)) is True, "c37:cut", "the storage is not cut to "
              "the words that were kept", w)
        g = e.rd(s, base, (("f", ar.cnt, ar.n),))
        cx.ob(s.decide(t.eq(g, ZERO)) is True, "c37:released", "words count as released after "
              "compaction", w)
        x = r
        while x.op == "push":
            x = x.args[0]
        cx.ob(x.op != "phi" or any((x.args[1][0], ()) == v for v in rule.vecs), "c37:map",
              "the map that is returned is not made of the recorded gaps", w)


# ------------------------------------------------------------------ lookup
class Lookup(Rule):
    def __init__(self, cx, gaps, ref):
        self.cx, self.gaps, self.ref = cx, gaps, ref

    def g(self, st, i):
        return View(self.cx, t.sel(self.gaps, i, st.decide), GAP)

    def on_call(self, eng, st, c):
        name = c.path.rsplit("::", 1)[-1]
        if not c.path.startswith("core::slice::<impl [T]>::") or name not in (
                "binary_search_by", "binary_search_by_key", "partition_point"):
            return None
        if eng.read(st, c.args[0]) is not self.gaps:
            return None
        cls = [self.classify(eng, st, c, name, k) for k in (-1, 0, 1)]
        w = at(c.fr, c.span)
        if not self.cx.ob(cls[0] == "less" and cls[2] == "greater" and cls[1] in ("less", "equal"),
                          "c37:search", "the search among the gaps does not tell those that start "
                          "after the reference from the others", w):
            return None
        out = []
        n = t.length(self.gaps)
        k = eng.fresh(c, "index")
        for lo, hi in ((True, True), (True, False), (False, True), (False, False)):
            s = st.copy()
            ok = s.assume(t.le(ZERO, k)) and s.assume(t.le(k, n))
            ok = ok and s.assume(t.lt(ZERO, k) if lo else t.eq(k, ZERO))
            ok = ok and s.assume(t.lt(k, n) if hi else t.eq(k, n))
            f = t.lt if cls[1] == "equal" else t.le
            if ok and lo:
                ok = s.assume(f(self.g(s, t.sub(k, ONE)).start, self.ref))
            if ok and hi:
                ok = s.assume(t.lt(self.ref, self.g(s, k).start))
            if ok:
                event(s, "k", k)
                out.append((s, k if name == "partition_point" else t.en(1, k)))
        if cls[1] == "equal":
            s = st.copy()
            if s.assume(t.le(ZERO, k)) and s.assume(t.lt(k, n)) and \
                    s.assume(t.eq(self.g(s, k).start, self.ref)):
                event(s, "k", t.add(k, ONE))
                out.append((s, t.en(0, k)))
        return out

    def classify(self, eng, st, c, name, k):
        s = st.copy()
        i = mk("sym", "any")
        s.assume(t.le(ZERO, i))
        s.assume(t.lt(i, t.length(self.gaps)))
        start = self.g(s, i).start
        s.assume((t.lt(start, self.ref), t.eq(start, self.ref), t.lt(self.ref, start))[k + 1])
        b, p = eng.deref(s, c.args[0])
        elem = eng.ref(b, p + (("x", i),))
        f = 2 if name == "binary_search_by_key" else 1
        outs = models.call_value(eng, s, c, c.args[f], c.argtys[f], [elem], ["&" + GAP])
        if not outs:
            return None
        res = set()
        for s2, v in outs:
            if name == "partition_point":
                d = s2.decide(v)
                res.add({True: "less", False: "greater"}.get(d))
            elif name == "binary_search_by_key":
                key = eng.read(s2, c.args[1])
                for d, nm in ((t.lt(v, key), "less"), (t.eq(v, key), "equal"), (t.lt(key, v), "greater")):
                    if s2.decide(d) is True:
                        res.add(nm)
                        break
                else:
                    res.add(None)
            else:
                for j, nm in enumerate(("less", "equal", "greater")):
                    if v.op == "en" and v.args[0] == j or s2.decide(t.eq(t.disc(v), I(j))) is True:
                        res.add(nm)
                        break
                else:
                    res.add(None)
        return res.pop() if len(res) == 1 else None

    def on_unreachable(self, eng, st, *a):
        self.cx.ob(False, "c37:unreachable", "a place that is declared unreachable can be reached by the "
                   "lookup of references")


def lookup(cx, path):
    key = cx.key(path)
    ps = cx.params(key)
    me = [i for i, ty in enumerate(ps) if MAP in ty][0]
    ref = mk("sym", "a%d" % [i for i, ty in enumerate(ps) if ty == REF][0])
    gaps = mk("pt", mk("sym", "a%d" % me))
    rule = Lookup(cx, gaps, ref)
    st = State()
    st.assume(t.lt(t.length(gaps), I(1 << 62)))
    e, a, outs = cx.run(key, st=st, rule=rule, pr={})
    w = cx.where(path)
    cx.ob(bool(outs), "c37:lookup:returns", "the lookup never returns", w)
    for s, r in outs:
        ks = events(s, "k")
        if not cx.ob(len(ks) == 1, "c37:lookup:search", "the last gap before the reference is not looked "
                     "for", w):
            continue
        k = ks[0].args[1]
        for s1, first in e.fork(s, t.eq(k, ZERO)):
            g = rule.g(s1, t.sub(k, ONE))
            for s2, found in e.fork(s1, t.eq(t.disc(r), ONE)):
                v = t.vfld(r, 1, 0)
                if first:
                    cx.ob(found and eqv(s2, v, ref), "c37:lookup:first", "a reference before all gaps "
                          "is changed", w)
                elif found:
                    cx.ob(s2.decide(t.le(g.end, ref)) is True and
                          s2.decide(t.eq(v, t.sub(ref, g.shift))) is True, "c37:lookup:moved",
                          "a reference is not moved by the distance of the last gap before it", w)
                else:
                    cx.ob(s2.decide(t.lt(ref, g.end)) is True, "c37:lookup:deleted",
                          "a reference outside of all gaps has no new reference", w)
