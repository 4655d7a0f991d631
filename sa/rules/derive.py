"""Abstract interpretation of the derivation of a conflict clause, shared by C35 and C08.

analyze_conflict is analysed from an arbitrary state with no literal marked, once per kind of
conflict.  Every write to the marks, the counter of current-level literals and the derived clause
is an event; the events between two points where a literal has been dealt with have to form one of
the legal groups (a new literal is marked, reported to the heuristic, and counted or kept according
to its level; the latest marked literal is unmarked and uncounted and then its reason is dealt with;
when nothing is counted any more the negation of the last removed literal ends the clause).  That
every literal of the conflict and of each reason was dealt with is an inductively proved loop fact."""
from .common import *
from .. import prims
from ..state import State
from . import scan, c09, c11

FTY.update({
    (CA, "current_clause_lits"): "VecMap<starlit::prop::trail::TrailIndex, bool>",
    (CA, "derived_clause"): "std::vec::Vec<starlit::lit::Lit>",
    (CA, "current_level_lit_count"): "usize",
    (CA, "glue_level_flags"): "VecMap<starlit::prop::trail::DecisionLevel, bool>",
    (CA, "minimize_clause"): "MinimizeClause",
})
CONF = "starlit::prop::ConflictClause"
MINIMIZE = "starlit::minimize::minimize"
GLUE = "starlit::glue::compute_glue"
INTS = ("i", "lin", "phi", "sym", "fld", "len", "sel")
GROUP = ("mark", "unmark", "count", "uncount", "keep", "cb")


class Acc(Pred):
    """The literal is false at the top level or marked."""

    def __init__(self, rule):
        self.rule = rule

    def check(self, st, a, i, v):
        return self.rule.accounted(st, t.sel(a, i, st.decide), v)

    def persists(self, st, old, new):
        return self.rule.monotone(st, old, new)


class Unm(Pred):
    """The mark is not set (a is the array of marks)."""

    def check(self, st, a, i, v):
        return st.decide(t.sel(a, i, st.decide)) is False

    def persists(self, st, old, new):
        return True


class Clr(Pred):
    """The mark of the literal is not set in the marks v."""

    def __init__(self, rule):
        self.rule = rule

    def check(self, st, a, i, v):
        l = t.sel(a, i, st.decide)
        return st.decide(t.sel(v, self.rule.ti(l, st), st.decide)) is False

    def persists(self, st, old, new):
        while new is not old:
            if new.op != "store" or new.args[2] is not FALSE:
                return False
            new = new.args[0]
        return True


def under(path, new, target, eng, st):
    """What a write of new at path does to the place target: (rest of path, value) or None."""
    n = min(len(path), len(target))
    if path[:n] != target[:n]:
        return None
    if len(path) >= len(target):
        return path[len(target):], new
    for e in target[len(path):]:
        new = eng.proj(st, new, e)
    return (), new


class Derive(Rule):
    def __init__(self, cx, pa, pp, conflict):
        self.cx, self.pa, self.pp, self.conflict = cx, P(pa), P(pp), conflict
        self.where = {n: fpath(cx, CA, n) for n in
                      ("current_clause_lits", "derived_clause", "current_level_lit_count")}
        p = View(cx, mk("pt", pp), PROP)
        self.TI, self.S, self.D0 = p.trail.trail_index, p.trail.steps, p.trail.decisions
        self.level = t.sub(t.length(self.D0), ONE)
        self.preds = {"ACC": Acc(self), "UNM": Unm(), "CLR": Clr(self)}
        self.removed = self.marked = self.kept = self.ends = 0

    # ---------------------------------------------------------- vocabulary
    def ti(self, l, st):
        return t.sel(self.TI, t.shr(l, ONE), st.decide)

    def step(self, i, st):
        return View(self.cx, t.sel(self.S, i, st.decide), STEP)

    def level_of(self, l, st):
        return self.step(self.ti(l, st), st).decision_level

    def accounted(self, st, l, M):
        return eqv(st, self.level_of(l, st), ZERO) or self.is_marked(st, M, self.ti(l, st))

    def is_marked(self, st, M, i):
        while True:
            if st.decide(t.sel(M, i, st.decide)) is True:
                return True
            # setting a mark, of whichever literal, does not remove another one
            if M.op == "store" and M.args[2] is TRUE:
                M = M.args[0]
            else:
                return False

    def monotone(self, st, old, new):
        while new is not old:
            if new.op == "store" and new.args[2] is TRUE:
                new = new.args[0]
            elif new.op == "store" and new.args[2] is FALSE and \
                    st.decide(t.sel(new.args[0], new.args[1], st.decide)) is False:
                new = new.args[0]
            elif new.op == "resize":
                new = new.args[0]
            else:
                return False
        return True

    def get(self, eng, st, name):
        return eng.rd(st, self.pa, self.where[name])

    def ended(self, st):
        return bool(events(st, "end"))

    def group(self, st):
        return [m for m in events(st) if m.args[0] in GROUP]

    def drop(self, st, ms):
        st.ms = tuple(m for m in st.ms if m not in ms)

    # ---------------------------------------------------------- writes
    def on_write(self, eng, st, base, path, new, fr, span):
        if base != self.pa:
            return
        w = at(fr, span)
        self.site = (fr.ctx, fr.block)
        ob = self.cx.ob
        u = under(path, new, self.where["current_clause_lits"], eng, st)
        if u is not None:
            self.marks(eng, st, u, w)
        u = under(path, new, self.where["current_level_lit_count"], eng, st)
        if u is not None and not self.ended(st):
            k, n = self.get(eng, st, "current_level_lit_count"), u[1]
            if n is k or eqv(st, n, k):
                pass
            elif eqv(st, n, t.add(k, ONE)):
                self.add(eng, st, w, "count")
            elif eqv(st, t.add(n, ONE), k):
                # the counter is the number of marks, one of which was just removed
                if any(m.args[0] == "unmark" for m in self.group(st)):
                    st.assume(t.le(ONE, k))
                self.add(eng, st, w, "uncount")
            else:
                ob(False, "c35:count", "the number of literals of the current level changes by "
                   "more than one", w)
        elif u is not None:
            ob(eqv(st, u[1], ZERO), "c08:count", "the number of literals of the current level is "
               "not zero after the clause was derived", w)
        u = under(path, new, self.where["derived_clause"], eng, st)
        if u is not None and not self.ended(st):
            d, n = self.get(eng, st, "derived_clause"), u[1]
            if n is d:
                pass
            elif u[0] == () and eqv(st, t.length(n), ZERO):
                ob(not events(st, "begun"), "c35:cleared", "the derived clause is cleared after "
                   "literals were added to it", w)
                event(st, "clear")
            elif u[0] == () and pushed(st, n, d) is not None:
                ob(bool(events(st, "clear")), "c35:clear", "literals are added to the derived "
                   "clause before that of the last conflict is removed", w)
                self.push(eng, st, pushed(st, n, d), w)
            else:
                ob(False, "c35:derived", "the derived clause is changed other than by adding one "
                   "literal", w)

    def begun(self, st):
        if not events(st, "begun"):
            event(st, "begun")

    def marks(self, eng, st, u, w):
        ob = self.cx.ob
        M = self.get(eng, st, "current_clause_lits")
        path, new = u
        if new is M:
            return
        if path == ():
            ok = new.op == "resize" and new.args[0] is M and new.args[2] is FALSE
            ob(ok and not events(st, "begun"), "c08:marks:other", "the literal marks are replaced",
               w)
            return
        if len(path) != 1 or path[0][0] != "x":
            ob(False, "c08:marks:other", "the literal marks are changed in an unknown way", w)
            return
        i = path[0][1]
        old = t.sel(M, i, st.decide)
        if self.ended(st):
            ob(new is FALSE or new is old, "c08:marks:late", "literals are marked after the clause "
               "was derived", w)
            return
        if new is TRUE:
            self.add(eng, st, w, "mark", i, old)
            self.before(eng, st, i)
        elif new is FALSE:
            K = self.get(eng, st, "current_level_lit_count")
            if st.decide(old) is False:
                return
            self.add(eng, st, w, "unmark", i, old, TRUE if eqv(st, K, ZERO) else FALSE, M)
        elif new is not old:
            ob(False, "c08:marks:other", "a literal mark is set to an unknown value", w)

    def before(self, eng, st, x):
        """Literals of a reason were assigned earlier (C07)."""
        p = events(st, "pending")
        n = t.length(self.S)
        st.assume(t.lt(x, n))
        if p and self.pending_lit(eng, st, p[-1].args[1], x) is not None:
            st.assume(t.lt(x, p[-1].args[1]))

    def pending_lit(self, eng, st, i, x):
        """The literal of the reason of step i whose trail index is the term x."""
        if x.op != "sel" or x.args[0] is not self.TI:
            return None
        v = x.args[1]
        r = self.step(i, st).reason
        k = t.vfld(r, self.cx.lay.variant(REASON, "Binary"), 0)
        if t.shr(k, ONE) is v:
            return k
        c = t.vfld(r, self.cx.lay.variant(REASON, "Long"), 0)
        lits = t.fld(t.sel(self.long(eng, st), c, st.decide), 1, 2)
        if v.op == "shr" and v.args[0].op == "sel":
            a, j = v.args[0].args
            if (a is lits or eqv_arr(st, a, lits)) and st.decide(t.le(ONE, j)) is True:
                return v.args[0]
        return None

    def long(self, eng, st):
        return View(self.cx, eng.getbase(st, self.pp), PROP).long

    def add(self, eng, st, w, name, *args):
        if name == "mark" and any(m.args[0] in ("mark", "unmark") for m in self.group(st)) \
                or name == "unmark" and [m.args[0] for m in self.group(st)] not in (
                    [], ["uncount"]) \
                or any(m.args[0] == name for m in self.group(st)):
            self.flush(eng, st, w)
        self.begun(st)
        event(st, name, *args)
        self.settle(eng, st, w)

    def push(self, eng, st, x, w):
        rm = events(st, "last")
        K = self.get(eng, st, "current_level_lit_count")
        if eqv(st, K, ZERO) and not any(m.args[0] in ("count", "mark", "cb") for m in self.group(st)):
            self.flush(eng, st, w)
            rm = events(st, "last")
            i = rm[-1].args[1] if rm and len(rm[-1].args) > 1 else None
            ok = i is not None and eqv(st, x, neg(self.step(i, st).assigned_lit))
            self.cx.ob(ok and not events(st, "uip"), "c35:uip", "the derived clause does not end "
                       "in the negation of the one remaining literal of the current level", w)
            self.drop(st, events(st, "pending"))
            event(st, "uip", self.get(eng, st, "derived_clause"))
            return
        self.add(eng, st, w, "keep", x)

    # ---------------------------------------------------------- groups
    def settle(self, eng, st, w):
        """Removes a group that is complete."""
        g = {m.args[0]: m for m in self.group(st)}
        if set(g) == {"mark", "count", "cb"} or set(g) == {"mark", "keep", "cb"}:
            self.fresh(eng, st, g, w)
            self.drop(st, list(g.values()))
        elif set(g) == {"unmark", "uncount"}:
            self.remove(eng, st, g, w)

    def fresh(self, eng, st, g, w):
        ob = self.cx.ob
        i, old = g["mark"].args[1:]
        ob(st.decide(old) is False, "c35:twice", "a literal may be added again that is already in "
           "the clause", w)
        lv = self.step(i, st).decision_level
        if "count" in g:
            self.marked += 1
            # no step is of a later level than the current one (C07)
            ob(st.decide(t.le(self.level, lv)) is True, "c35:counted", "a literal is counted that may not be of "
               "the current level", w)
            ob(st.decide(t.eq(lv, ZERO)) is not True, "c35:top", "a top level literal is counted",
               w)
        else:
            self.kept += 1
            x = g["keep"].args[1]
            ob(eqv(st, self.ti(x, st), i), "c35:kept:mark", "another literal is marked than the "
               "one kept for the derived clause", w)
            ob(st.decide(t.eq(lv, self.level)) is False, "c35:kept", "a literal is kept that may "
               "be of the current level", w)
            ob(st.decide(t.eq(lv, ZERO)) is False, "c35:top", "a literal false at the top level is "
               "kept", w)
            ob(self.source(eng, st, x), "c35:kept:source", "a literal is kept that is not one of "
               "the clause that is dealt with", w)
        ob(eqv(st, t.sel(self.TI, g["cb"].args[1], st.decide), i), "c35:callback",
           "another variable is reported to the heuristic than the one added", w)

    def source(self, eng, st, x):
        p = events(st, "pending")
        if p:
            return self.pending_lit(eng, st, p[-1].args[1], self.ti(x, st)) is x
        a = self.conflict_lits(eng, st)
        return x.op == "sel" and eqv_arr(st, x.args[0], a) \
            or any(x is y for y in (a.args if a.op == "arr" else ()))

    def remove(self, eng, st, g, w):
        ob = self.cx.ob
        _, i, old, kz, M = g["unmark"].args
        ob(st.decide(old) is True, "c35:removed", "a literal is removed that may not be in the "
           "clause", w)
        self.removed += 1
        st.assume(t.le(ZERO, self.get(eng, st, "current_level_lit_count")))
        for p in events(st, "pending"):
            self.dealt(eng, st, p.args[1], M, w)
        if not events(st, "last"):
            self.dealt_conflict(eng, st, M, w)
        n = t.length(self.S)
        ob(st.decide_all(mk("all", M, t.add(i, ONE), n, "UNM", M)) is True, "c35:order",
           "a literal is removed that may not be the last assigned one of the clause", w)
        self.drop(st, list(g.values()) + events(st, "pending") + events(st, "last"))
        event(st, "pending", i, *self.site)
        event(st, "last", i, *self.site)

    def flush(self, eng, st, w):
        """No literal is half dealt with."""
        g = self.group(st)
        names = [m.args[0] for m in g]
        self.drop(st, g)
        if not names:
            return
        ob = self.cx.ob
        if names == ["mark"]:
            ob(st.decide(g[0].args[2]) is True, "c35:half", "a literal is marked without being "
               "counted or kept and reported", w)
        elif names == ["unmark"]:
            o = st.decide(g[0].args[2])
            if o is False:
                return
            ok = o is None and g[0].args[3] is TRUE
            ob(ok, "c35:uncounted", "a literal is removed from the clause without being uncounted "
               "and replaced by its reason", w)
        else:
            ob(False, "c35:half", "a literal is not dealt with completely (%s)" % ", ".join(names),
               w)

    # ---------------------------------------------------------- completeness
    def dealt(self, eng, st, i, M, w):
        """All literals of the reason of step i are accounted for in the marks M."""
        ob = self.cx.ob
        r = self.step(i, st).reason
        vs = self.cx.lay.adt(REASON)[1]["variants"]
        d = t.disc(r)
        for k, v in enumerate(vs):
            s = st.copy()
            if r.op == "en":
                if r.args[0] != k:
                    continue
            elif not s.assume(t.eq(d, I(k))):
                continue
            if v["name"] == "Binary":
                l = t.vfld(r, k, 0)
                ok = self.accounted(s, l, M) or \
                    s.decide_all(mk("all", mk("arr", l), ZERO, ONE, "ACC", M)) is True
            elif v["name"] == "Long":
                lits = t.fld(t.sel(self.long(eng, s), t.vfld(r, k, 0), s.decide), 1, 2)
                ok = s.decide_all(mk("all", lits, ONE, t.length(lits), "ACC", M)) is True
            else:
                ok = True
            ob(ok, "c35:reason:" + v["name"], "not every literal of the reason of a removed "
               "literal is top level false, marked or added", w)

    def conflict_lits(self, eng, st):
        c = self.conflict
        if self.cx.lay.adt(CONF)[1]["variants"][c.args[0]]["name"] == "Binary":
            return c.args[1]
        return t.fld(t.sel(self.long(eng, st), c.args[1], st.decide), 1, 2)

    def dealt_conflict(self, eng, st, M, w):
        a = self.conflict_lits(eng, st)
        n = t.length(a)
        self.cx.ob(st.decide_all(mk("all", a, ZERO, n, "ACC", M)) is True, "c35:conflict",
                   "not every literal of the conflict clause is top level false, marked or added",
                   w)

    # ---------------------------------------------------------- control flow
    def on_call(self, eng, st, c):
        if c.path.endswith("::var_in_conflict"):
            v = [x for x, ty in zip(c.args, c.argtys) if ty == "starlit::lit::Var"]
            w = at(c.fr, c.span)
            if not self.ended(st):
                self.add(eng, st, w, "cb", v[0])
            return [(st, t.UNIT)]
        if c.path.endswith("::analyzed_conflict"):
            self.end(eng, st, at(c.fr, c.span))
            return [(st, t.UNIT)]
        if c.path in (MINIMIZE, BACKTRACK) or "prepare_for_backtracking" in c.path:
            self.end(eng, st, at(c.fr, c.span))
        return None

    def partition(self, eng, st):
        out = []
        for p in events(st, "pending"):
            d = t.disc(self.step(p.args[1], st).reason)
            out.append([k for k in range(3) if st.decide(t.eq(d, I(k))) is True])
        return str(out)

    def on_backedge(self, eng, st, fr, h):
        if self.ended(st):
            return
        w = at(fr, fr.body.blocks[h]["sp"])
        self.flush(eng, st, w)
        for p in events(st, "pending"):
            if self.inside(eng, p, fr, h):
                M = self.get(eng, st, "current_clause_lits")
                self.dealt(eng, st, p.args[1], M, w)
                self.drop(st, [p])
        for p in events(st, "last"):
            if len(p.args) > 1 and self.inside(eng, p, fr, h):
                self.drop(st, [p])
                event(st, "last")

    def inside(self, eng, m, fr, h):
        """The event happened in the loop that goes on."""
        f, b = m.args[2], m.args[3]
        while f >= 0 and f != fr.ctx:
            f, b, _ = eng.ctxinfo[f]
        return f == fr.ctx and b in fr.body.loops[h]

    def end(self, eng, st, w):
        if self.ended(st):
            return
        self.flush(eng, st, w)
        ob = self.cx.ob
        M = self.get(eng, st, "current_clause_lits")
        K = self.get(eng, st, "current_level_lit_count")
        D = self.get(eng, st, "derived_clause")
        self.ends += 1
        ob(eqv(st, K, ZERO), "c08:count", "literals are still counted when the clause is derived",
           w)
        if events(st, "last"):
            ob(bool(events(st, "uip")), "c35:no-uip", "the derived clause ends without the "
               "remaining literal of the current level", w)
        for m in events(st, "uip"):
            n = t.sub(t.length(D), ONE)
            ob(st.decide_all(mk("all", D, ZERO, n, "CLR", M)) is True or
               st.decide_all(mk("all", m.args[1], ZERO, t.length(m.args[1]), "CLR", M)) is True,
               "c08:marks:left", "a literal kept for the derived clause may stay marked", w)
        event(st, "end", M)

    # ---------------------------------------------------------- loop facts
    def clauses(self, eng, head, states):
        arrs = [self.conflict_lits(eng, head)]
        for s in states:
            for p in events(s, "pending"):
                r = self.step(p.args[1], head).reason
                cl = t.vfld(r, self.cx.lay.variant(REASON, "Long"), 0)
                arrs.append(t.fld(t.sel(self.long(eng, head), cl, head.decide), 1, 2))
                arrs.append(mk("arr", t.vfld(r, self.cx.lay.variant(REASON, "Binary"), 0)))
        return dict.fromkeys(arrs)

    def merge_alls(self, eng, states):
        s = states[0]
        if self.ended(s):
            return
        M = self.get(eng, s, "current_clause_lits")
        for a in self.clauses(eng, s, states[:1]):
            ks = {I(i): None for i in range(len(a.args))} if a.op == "arr" else {}
            for q in states:
                for f in q.facts:
                    indices(f, a, ks)
            for k in ks:
                yield mk("all", a, k, t.add(k, ONE), "ACC", M)

    def loop_candidates(self, eng, fr, h, head, phis, states):
        out = list(Rule.loop_candidates(self, eng, fr, h, head, phis, states) or ())
        if not self.ended(head) and events(head, "last"):
            out.append(t.le(ONE, self.get(eng, head, "current_level_lit_count")))
        return out

    def loop_alls(self, eng, fr, h, head, phis, states, sigma):
        if self.ended(head):
            return
        M = self.get(eng, head, "current_clause_lits")
        D = self.get(eng, head, "derived_clause")
        ivs = []
        for loc, ph in phis.items():
            vs = [eng.valat(x, loc) for x in states]
            if all(v is not None and v.op in INTS for v in vs):
                ivs.append((ph, vs[0] if vs[0].op in INTS else ZERO))
        n = t.length(self.S)
        for a in self.clauses(eng, head, states):
            yield mk("all", a, ZERO, t.length(a), "ACC", M)
            for ph, e in ivs:
                for o in (ZERO, ONE):
                    yield mk("all", a, t.add(o, e), t.add(o, ph), "ACC", M)
                yield mk("all", a, ZERO, ph, "ACC", M)
                yield mk("all", a, ONE, t.add(ONE, ph), "ACC", M)
                yield mk("all", a, ONE, ph, "ACC", M)
        for ph, e in ivs:
            yield mk("all", M, ph, n, "UNM", M)
            yield mk("all", M, t.add(ph, ONE), n, "UNM", M)
            yield mk("all", M, t.sub(n, ph), n, "UNM", M)
            yield mk("all", D, ZERO, ph, "CLR", M)
            yield mk("all", D, e, ph, "CLR", M)
            yield mk("all", D, ph, t.length(D), "CLR", M)
        for s in states:
            for p in events(s, "pending"):
                yield mk("all", M, p.args[1], n, "UNM", M)
            for m in events(s, "uip"):
                for ph, e in ivs:
                    yield mk("all", m.args[1], ZERO, ph, "CLR", M)
        yield mk("all", D, ZERO, t.length(D), "CLR", M)


def indices(f, a, out, depth=0):
    """Indices at which the term reads the array."""
    if f.op == "sel" and f.args[0] is a:
        out[f.args[1]] = None
    if depth < 12:
        for x in f.args:
            if isinstance(x, t.T) and x.args:
                indices(x, a, out, depth + 1)


def pushed(st, new, old):
    """The element appended to old in new, or None."""
    x = t.sel(new, t.length(old), st.decide)
    return x if t.push(old, x) is new else None


def eqv_arr(st, a, b):
    return a is b or flat_base(a) is flat_base(b)


def flat_base(a):
    while a.op == "sub":
        a = a.args[0]
    return a


def run(cx):
    key = cx.key(ANALYZE)
    w = cx.where(ANALYZE)
    ia, ip = cx.param(key, CA), cx.param(key, PROP)
    ic = cx.param(key, CONF)
    tot = [0, 0, 0, 0]
    for kind in ("Binary", "Long"):
        a = [mk("sym", "a%d" % i) for i in range(cx.lib.body(key).argc)]
        x = mk("sym", "conflict")
        v = cx.lay.variant(CONF, kind)
        if kind == "Binary":
            x = mk("arr", mk("sym", "conflict.0"), mk("sym", "conflict.1"))
        a[ic] = t.en(v, x)
        rule = Derive(cx, a[ia], a[ip], a[ic])
        pr = c09.analysis_contracts(cx)
        pr.pop(scan.deriving(cx), None)
        pr[prims.AR + "lits"] = prims.live_lits
        pr[GLUE] = lambda eng, st, c: [(st, eng.fresh(c))]
        pr = c11.logging(pr)
        pr[c09.ADD] = c09.recorder(cx)
        st = State()
        st.preds = rule.preds
        M = rule_marks(cx, a[ia])
        st.add_all(M, ZERO, t.length(rule.S), "UNM", M)
        e, _, outs = cx.run(key, args=dict(enumerate(a)), st=st, rule=rule, pr=pr)
        cx.ob(bool(outs), "c35:returns", "conflict analysis never returns", w)
        for s, _ in outs:
            cx.ob(bool(events(s, "end")), "c35:end", "conflict analysis returns without "
                  "backtracking", w)
            for m in events(s, "end"):
                M1 = rule.get(e, s, "current_clause_lits")
                cx.ob(M1 is m.args[1], "c08:marks:late", "literal marks change after the clause "
                      "was derived", w)
                cx.ob(eqv(s, rule.get(e, s, "current_level_lit_count"), ZERO), "c08:count",
                      "the number of literals of the current level is not zero after analysis", w)
        for i, x in enumerate((rule.removed, rule.marked, rule.kept, rule.ends)):
            tot[i] += x
    for x, n in zip(tot, ("removes", "counts", "keeps", "ends")):
        cx.ob(x > 0, "c35:" + n, "the derivation never %s a literal" % n, w)


def rule_marks(cx, p):
    return cx.lay.get(mk("pt", p), CA, "current_clause_lits", FTY[(CA, "current_clause_lits")])
