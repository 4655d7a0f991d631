"""Abstract interpretation of unit propagation, shared by C05, C06 and C07.

`propagate` is analysed from an arbitrary state in which the literals on the trail are true and every
entry of a watch list belongs to a clause that has the list's literal among its first two literals
(C31 and, inductively, the obligations below).  While an entry of a scanned list is examined, the
clause storage, watch lists and values at its beginning are remembered; at the end of the examination
(the back edge of the scanning loop, or the end of the scan) they are compared with the state reached:
what happened to the entry has to be justified by the literals of the clause."""
from .common import *
from .. import prims
from ..state import State, persists
from . import scan

CONF = "starlit::prop::ConflictClause"


class Lits(Pred):
    """The literals are true / have a true negation."""

    def __init__(self, cx, true, steps=False):
        self.cx, self.true, self.steps = cx, true, steps

    def check(self, st, a, i, v):
        x = t.sel(a, i, st.decide)
        if self.steps:
            x = View(self.cx, x, STEP).assigned_lit
        return st.truth(v, x if self.true else neg(x)) is True

    def persists(self, st, old, new):
        return persists(new, old, st)


class Same(Pred):
    """The elements are those of the array named as version."""

    def check(self, st, a, i, v):
        return t.sel(a, i, st.decide) is t.sel(v, i, st.decide)

    def persists(self, st, old, new):
        return False


class Scan(Rule):
    def __init__(self, cx, ptr):
        self.cx, self.ptr = cx, ptr
        self.preds = {"T": Lits(cx, True), "FL": Lits(cx, False),
                      "TS": Lits(cx, True, True), "PFX": Same()}
        self.pp = fpath(cx, PROP, "trail", "propagated")
        self.processed = 0
        self.items = 0

    def view(self, eng, st):
        return View(self.cx, eng.getbase(st, P(self.ptr)), PROP)

    # ---------------------------------------------------------- progress
    def on_write(self, eng, st, base, path, new, fr, span):
        if base != P(self.ptr) or path != self.pp[:len(path)]:
            return
        for e in self.pp[len(path):]:
            new = eng.proj(st, new, e)
        v = self.view(eng, st)
        old = v.trail.propagated
        if new is old or st.decide(t.le(new, old)) is True:
            return
        w = at(fr, span)
        ob = self.cx.ob
        self.processed += 1
        if not ob(eqv(st, new, t.add(old, ONE)), "c05:step", "more than one literal is marked as "
                  "processed at once", w):
            return
        steps = v.trail.steps
        for a, lo, hi, p, ver in list(st.alls):
            # the array had this entry already when the examination began
            if p == "PFX" and a is steps and st.decide(t.lt(old, hi)) is True and lo is ZERO:
                e = neg(View(self.cx, t.sel(ver, old, st.decide), STEP).assigned_lit)
                if any(m.args[1] is e for m in events(st, "list")):
                    steps = ver
                    break
        L = View(self.cx, t.sel(steps, old, st.decide), STEP).assigned_lit
        n = neg(L)
        B = t.sel(v.binary, n, st.decide)
        ob(st.decide_all(mk("all", B, ZERO, t.length(B), "T", v.values)) is True, "c05:binary",
           "a literal is marked as processed although a binary clause containing its negation may "
           "not be satisfied or examined", w)
        ls = [m for m in events(st, "list") if eqv(st, m.args[1], n)]
        ob(bool(ls) and all(m.args[3] is True for m in ls), "c05:long",
           "a literal is marked as processed before the watched clauses of its negation were all "
           "examined", w)
        ob(not events(st, "conf"), "c05:conflict", "a literal is marked as processed although a "
           "clause is in conflict", w)
        self.restored(eng, st, w)
        st.ms = tuple(m for m in st.ms or () if m.args[0] not in ("list",))

    def restored(self, eng, st, w):
        v = self.view(eng, st)
        for m in events(st, "list"):
            now = t.sel(v.watches.by_lit, m.args[1], st.decide)
            self.cx.ob(now is m.args[2] or eqv(st, now, m.args[2]), "c06:restored",
                       "the scanned watch list is not put back for its literal", w)

    # ---------------------------------------------------------- one entry
    def on_backedge(self, eng, st, fr, h):
        its = events(st, "item")
        if not its:
            self.note_reset(eng, st, fr, h)
            return
        blocks = fr.body.loops[h]
        f, b = its[0].args[6], its[0].args[7]
        while f >= 0 and f != fr.ctx:
            f, b, _ = eng.ctxinfo[f]
        inside = f == fr.ctx and b in blocks
        if inside:
            self.settle(eng, st, at(fr, fr.body.blocks[h]["sp"]))
        else:
            self.note_reset(eng, st, fr, h)

    def note_reset(self, eng, st, fr, h):
        """Marks that a position was set back to the start in an inner loop."""
        if not events(st, "item") or events(st, "reset"):
            return
        for b, v in st.mem.items():
            if b[0] == "L" and b[1] == fr.ctx and v is ZERO \
                    and fr.body.locals[b[2]][0] == "usize":
                event(st, "reset")
                return

    def begin(self, eng, st, c, w, watch, bylit):
        """Cases of an entry just handed out."""
        self.items += 1
        W = View(self.cx, watch, WATCH)
        v = self.view(eng, st)
        lp = fpath(self.cx, PROP, "long")
        out = []
        C = W.clause
        lits = t.fld(t.sel(v.long, C, st.decide), 1, 2)
        for s, k, long in self.cases(st, t.length(lits)):
            s2 = s.copy()
            if k is not None:
                if k and not s2.assume(t.notb(t.eq(t.sel(lits, ZERO, s2.decide), w))):
                    continue        # the case of the literal in front
                if long:
                    if not s2.assume(t.le(t.add(self.pos(eng, s2, v.long, C), I(3)),
                                          t.length(lits))):
                        continue
                eng.wr(s2, P(self.ptr), lp + (("x", C), ("f", 1, 2)), t.store(lits, I(k), w),
                       c.fr, c.span)
            v2 = self.view(eng, s2)
            event(s2, "item", C, W.blocking_lit, v2.long, v2.watches.by_lit, w, c.fr.ctx, c.block,
                  v2.values, long)
            out.append(s2)
        return out

    def pos(self, eng, st, long, C):
        return prims.hget(eng, st, "search_pos", t.fld(t.sel(long, C, st.decide), 0, 2))

    def cases(self, st, n):
        for s, dead in split(st, t.lt(n, I(2))):
            if dead:
                yield s, None, False
                continue
            for s1, short in split(s, t.lt(n, I(3))):
                for k in (0, 1):
                    yield s1, k, not short

    def settle(self, eng, st, where):
        its = events(st, "item")
        if not its:
            return
        _, C, blk, long0, by0, w, _, _, val0, _ = its[0].args
        disp = [m for m in st.ms if m.args[0] in ("kept", "gone")]
        st.ms = tuple(m for m in st.ms if m.args[0] not in ("item", "kept", "gone", "reset"))
        ob = self.cx.ob
        D = st.decide
        v = self.view(eng, st)
        V = v.values
        lits0 = t.fld(t.sel(long0, C, D), 1, 2)
        lits1 = t.fld(t.sel(v.long, C, D), 1, 2)
        ob(other_clauses_same(eng, st, long0, v.long, C), "c06:others", "another clause than the one "
           "examined, or a header, is changed while a watch list is scanned", where)
        n = t.length(lits0)
        if D(t.lt(n, I(2))) is True:
            ob(lits1 is lits0 and by0 is v.watches.by_lit, "c06:deleted", "a deleted clause is "
               "changed or watched again", where)
            if disp and disp[0].args[0] == "kept":
                self.keepable(eng, st, disp[0], C, blk, lits1, V, where, True)
            return
        if D(t.lt(n, I(3))) is not True:
            ob(D(t.le(t.add(self.pos(eng, st, v.long, C), I(3)), n)) is True, "c06:position",
               "the position where the search continues may be outside of the clause", where)
        k = 0 if t.sel(lits0, ZERO, D) is w else 1
        other = t.sel(lits0, I(1 - k), D)
        l0, l1 = t.sel(lits1, ZERO, D), t.sel(lits1, ONE, D)
        first = t.sel(lits0, ZERO, D)
        if not eqv(st, first, l0):
            ob(st.truth(val0, first) is False or st.truth(val0, neg(first)) is True,
               "c07:reorder", "the literals of a clause that may be the reason of an assignment "
               "are reordered", where)
        kept = [m for m in disp if m.args[0] == "kept"]
        ob(len(disp) <= 1, "c06:once", "a watch list entry is kept twice", where)
        if kept:
            ob(by0 is v.watches.by_lit, "c06:kept:lists", "an entry is kept and other watch lists "
               "change", where)
            ok = (eqv(st, l0, w) and eqv(st, l1, other)) or (eqv(st, l0, other) and eqv(st, l1, w))
            ob(ok and within(st, changed(st, lits0, lits1)), "c06:kept:lits", "an entry is kept but the clause's "
               "literals are not the same ones with the watched two in front", where)
            self.keepable(eng, st, kept[0], C, blk, lits1, V, where, False)
            return
        # removed: the watch has moved
        by1 = v.watches.by_lit
        ok = by1.op == "store" and by1.args[0] is by0 and by1.args[2].op == "push" \
            and by1.args[2].args[0] is t.sel(by0, by1.args[1], D)
        if not ob(ok, "c06:lost", "an entry of a clause that is not deleted leaves the watch list "
                  "without a new one", where):
            return
        z, nw = by1.args[1], View(self.cx, by1.args[2].args[1], WATCH)
        ob(eqv(st, nw.clause, C), "c06:moved:clause", "the new watch is for another clause", where)
        ob(self.in_clause(st, nw.blocking_lit, blk, lits0, lits1) and D(t.eq(nw.blocking_lit, z))
           is not True, "c06:moved:blocking", "the blocking literal of the new watch is not another "
           "literal of the clause", where)
        ob(D(t.eq(z, w)) is False or st.truth(V, neg(z)) is False, "c06:moved:nonfalse",
           "a watch moves to a literal that may be false", where)
        ok = False
        if z.op == "sel" and t.sel(lits0, z.args[1], D) is z and D(t.le(I(2), z.args[1])) is True:
            j = z.args[1]
            two = (eqv(st, l0, z) and eqv(st, l1, other)) or (eqv(st, l1, z) and eqv(st, l0, other))
            ok = two and eqv(st, t.sel(lits1, j, D), w) \
                and within(st, changed(st, lits0, lits1), j)
        ob(ok, "c06:moved:lits", "when a watch moves the clause's literals are not exchanged so "
           "that the watched ones are in front", where)

    def in_clause(self, st, b, blk, lits0, lits1):
        if b is blk:
            return True
        if b.op == "sel" and any(t.sel(l, b.args[1], st.decide) is b for l in (lits0, lits1)):
            return st.decide(t.lt(b.args[1], t.length(lits0))) is True
        return any(eqv(st, b, t.sel(l, I(k), st.decide)) for l in (lits0, lits1) for k in (0, 1))

    def keepable(self, eng, st, m, C, blk, lits, V, where, dead):
        ob = self.cx.ob
        K = View(self.cx, m.args[1], WATCH)
        ob(eqv(st, K.clause, C), "c06:kept:clause", "an entry is kept for another clause", where)
        b = K.blocking_lit
        ok = b is blk or (not dead and self.in_clause(st, b, blk, lits, lits))
        ob(ok, "c06:kept:blocking", "the blocking literal of a kept entry is not a literal of the "
           "clause", where)
        if ok and st.truth(V, b) is True:
            return
        if dead:
            return
        l0, l1 = t.sel(lits, ZERO, st.decide), t.sel(lits, ONE, st.decide)
        if st.truth(V, l0) is True or st.truth(V, l1) is True:
            return
        if self.false_all(st, lits, V, ()):
            event(st, "conf", C)
            return
        ob(False, "c05:examined", "a watched clause is passed over although it may have become unit "
           "or false", where)

    def false_all(self, st, lits, V, skip):
        for k in (0, 1):
            if k in skip:
                continue
            if st.truth(V, neg(t.sel(lits, I(k), st.decide))) is not True:
                return False
        return st.decide_all(mk("all", lits, I(2), t.length(lits), "FL", V)) is True

    # ---------------------------------------------------------- loop facts
    def loop_alls(self, eng, fr, h, head, phis, states, sigma):
        v = self.view(eng, head)
        S = v.trail.steps
        yield mk("all", S, ZERO, t.length(S), "TS", v.values)
        olds = [self.view(eng, s).trail.steps for s in states]
        olds += [k[4] for s in states for k in s.alls if k[3] == "PFX"]
        for o in dict.fromkeys(olds):
            yield mk("all", S, ZERO, t.length(o), "PFX", o)
        ivs = int_bounds(head, {loc: ph for loc, ph in phis.items()
                                if all(is_int(eng, x, loc) for x in states)}, states, sigma)
        arrs = []
        for s in states[:1]:
            its = events(s, "item")
            if its:
                C = its[0].args[1]
                arrs.append((t.fld(t.sel(v.long, C, head.decide), 1, 2), "FL"))
        for s in states:
            for (a, lo, hi, p, vv), val in s.alls.items():
                yield mk("all", a, lo, hi, p, v.values)
                if p in ("T", "FL"):
                    yield mk("all", a, lo, t.length(a), p, v.values)
                    yield mk("all", a, ZERO, hi, p, v.values)
        bins = {}
        for o in dict.fromkeys([S] + olds):
            L = View(self.cx, t.sel(o, v.trail.propagated, head.decide), STEP).assigned_lit
            bins[t.sel(v.binary, neg(L), head.decide)] = None
        for s in states:
            for x in s.mem.values():
                if x.op == "it" or x.op == "st":
                    bins.update(bin_lists(eng, s, x, v.binary))
        for b in bins:
            arrs.append((b, "T"))
        for a, p in arrs:
            for ph, e in ivs:
                for o in (ZERO, I(2)):
                    yield mk("all", a, t.add(o, e), t.add(o, ph), p, v.values)
                yield mk("all", a, ZERO, ph, p, v.values)
                yield mk("all", a, I(2), t.add(I(2), ph), p, v.values)

    def loop_candidates(self, eng, fr, h, head, phis, states):
        out = []
        for s in states[:1]:
            its = events(s, "item")
            if not its:
                return out
            C, long0 = its[0].args[1], its[0].args[3]
            e = t.sel(long0, C, s.decide)
            n = t.sub(t.length(t.fld(e, 1, 2)), I(2))
            s0 = prims.hget(eng, s, "search_pos", t.fld(e, 0, 2))
            ps = [ph for loc, ph in phis.items()
                  if all(is_int(eng, x, loc) for x in states)]
            for p in ps:
                for q in ps:
                    if p is not q:
                        out.append(t.eq(t.sub(p, q), s0))
                        out.append(t.eq(t.sub(p, q), t.sub(s0, n)))
                        out.append(t.le(p, q))
                        out.append(t.eq(t.add(p, q), s0))
                        out.append(t.eq(t.add(p, q), t.add(s0, n)))
                out.append(t.eq(p, t.sub(n, s0)))
                out.append(t.eq(p, s0))
                out.append(t.lt(p, n))
                out.append(t.le(p, n))
        return out


def is_int(eng, st, loc):
    v = eng.valat(st, loc)
    return v is not None and v.op in ("i", "lin", "phi", "hget", "sym", "fld", "len", "sel")


def bin_lists(eng, st, x, B):
    out = {}
    stack = [x]
    n = 0
    while stack and n < 40:
        y = stack.pop()
        n += 1
        if isinstance(y, tuple):
            stack.extend(y)
            continue
        if not isinstance(y, t.T):
            continue
        if y.op == "sel" and y.args[0] is B:
            out[y] = None
        if y.op == "ref":
            b, p = y.args
            if p and p[-1][0] == "x":
                z = eng.rd(st, b, p)
                if z.op == "sel" and z.args[0] is B:
                    out[z] = None
        stack.extend(a for a in y.args if isinstance(a, (t.T, tuple)))
    return out


def flat(a):
    """The array below the stores of a, and the indices stored to."""
    ix = []
    while a.op == "store":
        ix.append(a.args[1])
        a = a.args[0]
    return a, ix


def changed(st, a, b):
    """The indices where array b may differ from a (None if they have nothing in common)."""
    (x, i), (y, j) = flat(a), flat(b)
    if x is not y:
        return None
    out = []
    for k in dict.fromkeys(i + j):
        u, v = t.sel(a, k, st.decide), t.sel(b, k, st.decide)
        if not (u is v or eqv(st, u, v)):
            out.append(k)
    return out


def within(st, ch, *ix):
    """Only the first two elements and those at ix are among the changed ones."""
    return ch is not None and all(st.decide(t.lt(i, I(2))) is True
                                  or any(eqv(st, i, j) for j in ix) for i in ch)


def other_clauses_same(eng, st, a, b, C):
    """Storage b is a up to clause C, whose header only changes its search position."""
    (x, i), (y, j) = flat(a), flat(b)
    if x is not y:
        return False
    for k in dict.fromkeys(i + j):
        u, v = t.sel(a, k, st.decide), t.sel(b, k, st.decide)
        if k is C or eqv(st, k, C):
            if plain(t.fld(u, 0, 2)) is not plain(t.fld(v, 0, 2)):
                return False
        elif u is not v:
            return False
    return True


def plain(x):
    """A header without its search position."""
    while x.op == "hset" and x.args[1] == "search_pos":
        x = x.args[0]
    return x


def run(cx):
    key = cx.key(PROPAGATE)
    w = cx.where(PROPAGATE)
    ip = cx.param(key, PROP)
    a = [mk("sym", "a%d" % i) for i in range(cx.lib.body(key).argc)]
    rule = Scan(cx, a[ip])
    pr = prims.allp()
    ob = cx.ob

    def enable(eng, st, c):
        hav_fields(eng, cx, st, c, PROP, "watches")
        b, p = eng.deref(st, arg(c, PROP))
        on = [x for x, ty in zip(c.args, c.argtys) if ty == "bool"]
        eng.wr(st, b, p + fpath(cx, PROP, "watches", "enabled"), on[0], c.fr, c.span)
        return [(st, t.UNIT)]

    new0, next0, keep0, rem0 = (pr[prims.MS + x] for x in (
        "MutScan::<'a, T>::new", "MutScan::<'a, T>::next", "MutScanItem::<'a, 'b, T>::keep",
        "MutScanItem::<'a, 'b, T>::remove"))
    drop0, idrop0 = pr["drop " + prims.MS + "MutScan"], pr["drop " + prims.MS + "MutScanItem"]

    def ms_new(eng, st, c):
        b, p = eng.deref(st, c.args[0])
        L = eng.rd(st, b, p)
        v = rule.view(eng, st)
        ok = L.op == "sel" and (cx.ob(st.decide(v.watches.enabled) is True, "c05:enabled",
                                      "watch lists are scanned that may be disabled",
                                      at(c.fr, c.span)) or True)
        if ok:
            event(st, "scan", L.args[1])
        return new0(eng, st, c)

    def ms_next(eng, st, c):
        rule.settle(eng, st, at(c.fr, c.span))
        r = next0(eng, st, c)
        sc = events(st, "scan")
        if r is None or not sc:
            return r
        out = []
        for s, v in r:
            if v.args[0] != 1:
                event(s, "ended")
                out.append((s, v))
                continue
            x = v.args[1]
            si, vi, n = prims._scan_layout(eng, eng.ty(c.destty)["args"][0])
            for s2 in rule.begin(eng, s, c, sc[-1].args[1], x.args[vi], None):
                out.append((s2, v))
        return out

    def ms_keep(eng, st, c):
        si, vi, n = prims._scan_layout(eng, c.argtys[0])
        if events(st, "item"):
            event(st, "kept", t.fld(c.args[0], vi, n))
        return keep0(eng, st, c)

    def ms_remove(eng, st, c):
        if events(st, "item"):
            event(st, "gone")
        return rem0(eng, st, c)

    def ms_drop(eng, s, fr, b, base, path, sp):
        rule.settle(eng, s, at(fr, sp))
        sc = eng.rd(s, base, path)
        out = drop0(eng, s, fr, b, base, path, sp)
        for s2 in out:
            ev = events(s2, "scan")
            if sc.op == "scan" and ev:
                vec, arr, i, kept = sc.args
                done = s2.decide(t.le(t.length(arr), i)) is True
                s2.ms = tuple(m for m in s2.ms if m.args[0] not in ("scan", "ended"))
                event(s2, "list", ev[-1].args[1], eng.read(s2, vec), done)
        return out

    def assign_raw(eng, st, c):
        step = [x for x, ty in zip(c.args, c.argtys) if ty == STEP]
        v = rule.view(eng, st)
        reason(cx, rule, eng, st, View(cx, step[0], STEP), v, at(c.fr, c.span))
        return None

    pr["starlit::prop::watch::enable_watch_lists"] = enable
    pr[prims.MS + "MutScan::<'a, T>::new"] = ms_new
    pr[prims.MS + "MutScan::<'a, T>::next"] = ms_next
    pr[prims.MS + "MutScanItem::<'a, 'b, T>::keep"] = ms_keep
    pr[prims.MS + "MutScanItem::<'a, 'b, T>::remove"] = ms_remove
    pr["drop " + prims.MS + "MutScan"] = ms_drop
    pr[ASSIGN_RAW] = assign_raw
    st = State()
    st.preds = rule.preds
    v = View(cx, mk("pt", a[ip]), PROP)
    S = v.trail.steps
    st.add_all(S, ZERO, t.length(S), "TS", v.values)
    e, _, outs = cx.run(key, args=dict(enumerate(a)), st=st, rule=rule, pr=pr)
    ob(bool(outs), "c05:returns", "propagation never returns", w)
    ob(rule.items > 0, "c06:scans", "propagation scans no watch list", w)
    ob(rule.processed > 0, "c05:processes", "propagation never processes a literal", w)
    for s, ret in outs:
        v = rule.view(e, s)
        rule.restored(e, s, w)
        ob(not events(s, "item") and not events(s, "scan"), "c05:open", "propagation returns inside "
           "of a scan", w)
        conf = events(s, "conf")
        okv = ret.args[0] == 0 if ret.op == "en" else None
        if okv is None:
            ob(False, "c05:result", "the result of propagation is not known on some path", w)
        elif okv:
            ob(not conf, "c05:unreported", "a clause in conflict is not reported", w)
            ob(s.decide(t.le(t.length(v.trail.steps), v.trail.propagated)) is True, "c05:complete",
               "propagation finishes before every literal on the trail is processed", w)
        else:
            conflict(cx, rule, e, s, ret.args[1], conf, v, w)


def conflict(cx, rule, e, s, x, conf, v, w):
    vs = cx.lay.adt(CONF)[1]["variants"]
    ob = cx.ob
    if x.op != "en":
        ob(False, "c05:conflict:kind", "the reported conflict is not known on some path", w)
        return
    nm = vs[x.args[0]]["name"]
    p = x.args[1]
    if nm == "Binary":
        l0, l1 = t.sel(p, ZERO, s.decide), t.sel(p, ONE, s.decide)
        ob(s.truth(v.values, neg(l0)) is True and s.truth(v.values, neg(l1)) is True,
           "c05:conflict:binary", "a binary clause is reported as conflict that may not be false",
           w)
        ob(in_list(s, v.binary, l0, l1) or in_list(s, v.binary, l1, l0), "c05:conflict:stored",
           "a binary conflict is reported that is not a stored clause", w)
        ob(not conf, "c05:conflict:other", "another conflict is reported than the one found", w)
    else:
        ob(any(eqv(s, m.args[1], p) for m in conf), "c05:conflict:long", "a long clause is "
           "reported as conflict that is not known to be false", w)


def in_list(s, B, x, y):
    """y is an entry of the binary list of x."""
    if y.op != "sel":
        return False
    return y.args[0] is t.sel(B, x, s.decide) or \
        (y.args[0].op == "sel" and y.args[0].args[0] is B and eqv(s, y.args[0].args[1], x))


def reason(cx, rule, eng, st, step, v, w):
    ob = cx.ob
    ob(eqv(st, step.decision_level, t.sub(t.length(v.trail.decisions), ONE)), "c07:level",
       "an implied assignment is not recorded at the current decision level", w)
    r = step.reason
    l = step.assigned_lit
    if r.op != "en":
        ob(False, "c07:reason", "the recorded reason is not known on some path", w)
        return
    nm = cx.lay.adt(REASON)[1]["variants"][r.args[0]]["name"]
    V = v.values
    if nm == "Binary":
        o = r.args[1]
        ob(st.truth(V, neg(o)) is True, "c07:binary:false", "the literal named by a binary reason "
           "may not be false", w)
        ob(in_list(st, v.binary, o, l), "c07:binary:stored", "a binary reason does not name a "
           "stored clause with the implied literal", w)
    elif nm == "Long":
        c = r.args[1]
        lits = t.fld(t.sel(v.long, c, st.decide), 1, 2)
        ob(eqv(st, t.sel(lits, ZERO, st.decide), l), "c07:long:first", "the implied literal is not "
           "the first one of its reason", w)
        ob(rule.false_all(st, lits, V, (0,)), "c07:long:unit", "the other literals of a reason "
           "clause may not all be false", w)
    else:
        ob(False, "c07:reason:none", "propagation assigns a literal without a clause as reason", w)
