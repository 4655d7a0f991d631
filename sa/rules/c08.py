"""Scratch data of conflict analysis, by abstract interpretation with an event automaton.

Three parts.  The derivation of the clause (shared with C35): the literal marks are unset and the
counter is zero again when it is done.  compute_glue: level flags are only set for levels of the
given literals, and an inductively proved loop fact says that all of those are unset on return.
Minimisation: every entry made in the redundancy cache is paired with an entry in the list of
positions to clean (in every function, recursion by this very contract), the list is emptied with
the cache entry of each element reset, first positions are only set for levels of retained literals
and reset for all of them, and the traversal stack is empty on return."""
from .common import *
from .. import prims
from ..state import State
from . import scan, derive, c34

RULE = "paired events on every abstract path, quantified facts over the data cleaned up"
ASSUMES = ["the scratch data is neutral initially (Default)"]

MIN = "starlit::minimize::MinimizeClause"
ITEM = "starlit::minimize::StackItem"
FTY.update({
    (MIN, "first_on_level"): "VecMap<starlit::prop::trail::DecisionLevel, starlit::prop::trail::TrailIndex>",
    (MIN, "cache"): "VecMap<starlit::prop::trail::TrailIndex, std::option::Option<bool>>",
    (MIN, "to_clean"): "std::vec::Vec<starlit::prop::trail::TrailIndex>",
    (MIN, "stack"): "std::vec::Vec",
})


class Levels(object):
    def __init__(self, cx, tr):
        self.cx, self.TI, self.S = cx, tr.trail_index, tr.steps

    def ti(self, l, st):
        return t.sel(self.TI, t.shr(l, ONE), st.decide)

    def of(self, l, st):
        return View(self.cx, t.sel(self.S, self.ti(l, st), st.decide), STEP).decision_level


class Value(Pred):
    """A map holds the neutral value at the key of the element."""

    def __init__(self, key, neutral):
        self.key, self.neutral = key, neutral

    def check(self, st, a, i, v):
        return self.neutral(st, t.sel(v, self.key(t.sel(a, i, st.decide), st), st.decide))

    def persists(self, st, old, new):
        while new is not old:
            if new.op != "store" or not self.neutral(st, new.args[2]):
                return False
            new = new.args[0]
        return True


def inside(eng, m, fr, h):
    """Whether the event (which ends in its call context and block) happened in the loop."""
    f, b = m.args[-2], m.args[-1]
    while f >= 0 and f != fr.ctx:
        f, b, _ = eng.ctxinfo[f]
    return f == fr.ctx and b in fr.body.loops[h]


def ranges(eng, a, pred, v, phis, states):
    n = t.length(a)
    yield mk("all", a, ZERO, n, pred, v)
    for loc, ph in phis.items():
        vs = [eng.valat(x, loc) for x in states]
        if not all(x is not None and x.op in derive.INTS for x in vs):
            continue
        yield mk("all", a, ZERO, ph, pred, v)
        yield mk("all", a, ph, n, pred, v)
        yield mk("all", a, vs[0], ph, pred, v)
        yield mk("all", a, t.sub(n, ph), n, pred, v)


def none(st, x):
    return st.decide(t.eq(t.disc(x), ZERO)) is True


def run(cx):
    derive.run(Only(cx, "c08"))
    flags(cx)
    minimize(cx)
    owners(cx)


# ------------------------------------------------------------------ level flags
class Flags(Rule):
    def __init__(self, cx, pt, lits, lv):
        self.cx, self.base, self.lits, self.lv, self.sets = cx, P(pt), lits, lv, 0

    def on_write(self, eng, st, base, path, new, fr, span):
        if base != self.base:
            return
        ok = len(path) == 1 and path[0][0] == "x"
        if ok and new is not FALSE:
            self.sets += 1
            ks = {}
            derive.indices(path[0][1], self.lits, ks)
            ok = any(eqv(st, path[0][1], self.lv.of(t.sel(self.lits, k, st.decide), st))
                     for k in ks)
        self.cx.ob(ok, "c08:glue:set", "a level flag is set that does not belong to a literal of "
                   "the clause", at(fr, span))

    def loop_alls(self, eng, fr, h, head, phis, states, sigma):
        v = eng.rd(head, self.base)
        for x in ranges(eng, self.lits, "OFF", v, phis, states):
            yield x


def flags(cx):
    key = cx.key(derive.GLUE)
    w = cx.where(derive.GLUE)
    it = cx.param(key, "VecMap<starlit::prop::trail::DecisionLevel, bool>")
    il, ir = cx.param(key, "[starlit::lit::Lit]"), cx.param(key, TRAIL)
    a = [mk("sym", "a%d" % i) for i in range(cx.lib.body(key).argc)]
    lv = Levels(cx, View(cx, mk("pt", a[ir]), TRAIL))
    lits = mk("pt", a[il])
    rule = Flags(cx, a[it], lits, lv)
    st = State()
    st.preds = {"OFF": Value(lv.of, lambda s, x: s.decide(x) is False)}
    st.add_all(lits, ZERO, t.length(lits), "OFF", mk("pt", a[it]))
    e, _, outs = cx.run(key, args=dict(enumerate(a)), st=st, rule=rule)
    for s, _ in outs:
        v = e.rd(s, rule.base)
        cx.ob(v is mk("pt", a[it]) or s.decide_all(
            mk("all", lits, ZERO, t.length(lits), "OFF", v)) is True, "c08:glue:reset",
            "a level flag may still be set when the glue is computed", w)


# ------------------------------------------------------------------ minimisation
class Scratch(Rule):
    def __init__(self, cx, pm, lv, neutral, clause=None):
        self.cx, self.pm, self.lv, self.clause = cx, P(pm), lv, clause
        self.neutral = neutral
        self.where = {n: fpath(cx, MIN, n) for n in ("cache", "to_clean", "first_on_level",
                                                     "stack")}
        self.n = {}

    def get(self, eng, st, name):
        return eng.rd(st, self.pm, self.where[name])

    def drop(self, st, ms):
        st.ms = tuple(m for m in st.ms if m not in ms)

    def on_write(self, eng, st, base, path, new, fr, span):
        site = (fr.ctx, fr.block)
        w = at(fr, span)
        for m in events(st, "first"):
            if path is not None and base != self.pm:
                old = eng.rd(st, base, path)
                x = derive.pushed(st, new, old) if is_arr(old) else None
                if x is None and path and path[-1][0] == "x":
                    x = new
                if x is not None and x.op in ("sel", "sym", "fld", "phi", "vfld", "tr") and \
                        eqv(st, self.lv.of(x, st), m.args[1]):
                    self.drop(st, [m])
        if base != self.pm:
            return
        for n, f in (("cache", self.on_cache), ("to_clean", self.on_list),
                     ("first_on_level", self.on_first)):
            u = derive.under(path, new, self.where[n], eng, st)
            if u is not None:
                f(eng, st, u[0], u[1], w, site)

    def on_cache(self, eng, st, path, new, w, site):
        old = self.get(eng, st, "cache")
        if path == ():
            self.cx.ob(new is old or new.op == "resize" and new.args[0] is old and
                       none(st, new.args[2]), "c08:cache:other", "the redundancy cache is replaced",
                       w)
            return
        if len(path) != 1 or path[0][0] != "x":
            self.cx.ob(False, "c08:cache:other", "the redundancy cache is changed in an unknown "
                       "way", w)
            return
        i = path[0][1]
        if none(st, new):
            self.drop(st, [m for m in events(st, "owed") if eqv(st, m.args[1], i)])
            return
        self.n["cache"] = self.n.get("cache", 0) + 1
        q = [m for m in events(st, "queued") if eqv(st, m.args[1], i)]
        if q:
            self.drop(st, q[:1])
        else:
            event(st, "dirty", i, *site)

    def on_list(self, eng, st, path, new, w, site):
        old = self.get(eng, st, "to_clean")
        if path != ():
            self.cx.ob(False, "c08:list:other", "an entry of the list of positions to clean is "
                       "changed", w)
            return
        if new is old:
            return
        x = derive.pushed(st, new, old)
        n = t.length(old)
        if x is not None:
            q = [m for m in events(st, "dirty") if eqv(st, m.args[1], x)]
            if q:
                self.drop(st, q[:1])
            else:
                event(st, "queued", x, *site)
        elif eqv(st, t.length(new), ZERO):
            event(st, "taken", old)
        elif new is t.subarr(old, ZERO, t.sub(n, ONE)):
            event(st, "owed", t.sel(old, t.sub(n, ONE), st.decide), *site)
        else:
            self.cx.ob(False, "c08:list:other", "positions are removed from the list of positions "
                       "to clean in an unknown way", w)

    def on_first(self, eng, st, path, new, w, site):
        old = self.get(eng, st, "first_on_level")
        if path == ():
            self.cx.ob(new is old or new.op == "resize" and new.args[0] is old and
                       self.neutral(st, new.args[2]), "c08:first:other", "the first positions are "
                       "replaced", w)
            return
        if len(path) != 1 or path[0][0] != "x":
            self.cx.ob(False, "c08:first:other", "the first positions are changed in an unknown "
                       "way", w)
            return
        i = path[0][1]
        if self.neutral(st, new) or eqv(st, i, ZERO) and eqv(st, new, ZERO):
            return
        self.n["first"] = self.n.get("first", 0) + 1
        event(st, "first", i, *site)

    def on_backedge(self, eng, st, fr, h):
        self.settled(eng, st, at(fr, fr.body.blocks[h]["sp"]),
                     lambda m: inside(eng, m, fr, h))

    def settled(self, eng, st, w, sel=lambda m: True):
        for name, key, msg in (
                ("dirty", "c08:cache:unlisted", "a cached redundancy is not listed for cleaning"),
                ("owed", "c08:cache:kept", "a position is removed from the list without its cache "
                 "entry being reset"),
                ("first", "c08:first:unkept", "a first position is recorded for the level of a "
                 "literal that may not be kept")):
            ms = [m for m in events(st, name) if sel(m)]
            self.cx.ob(not ms, key, msg, w)
            self.drop(st, ms)
        self.drop(st, [m for m in events(st, "queued") if sel(m)])

    def on_recursion(self, eng, st, c):
        r = contract(self.cx)(eng, st, c)
        return r

    def loop_alls(self, eng, fr, h, head, phis, states, sigma):
        cache = self.get(eng, head, "cache")
        arrs = [m.args[1] for s in states for m in events(s, "taken")]
        arrs.append(self.get(eng, head, "to_clean"))
        for a in dict.fromkeys(arrs):
            for x in ranges(eng, a, "NONE", cache, phis, states):
                yield x
        if self.clause is not None:
            a = eng.rd(head, P(self.clause))
            v = self.get(eng, head, "first_on_level")
            for x in ranges(eng, a, "UNAS", v, phis, states):
                yield x


def is_arr(x):
    return x.op in ARR or x.op in ("pt", "fld", "phi", "sym", "perm", "rev")


def contract(cx):
    """Adds entries to the cache, all of which are listed; leaves everything else alone."""
    def f(eng, st, c):
        b, p = eng.deref(st, arg(c, MIN))
        for n in ("cache", "to_clean"):
            # written past the rule: the entries are paired
            old = eng.rd(st, b, p + fpath(cx, MIN, n))
            v = eng.fresh(c, n)
            rule, eng.rule = eng.rule, None
            eng.wr(st, b, p + fpath(cx, MIN, n), v, c.fr, c.span)
            eng.rule = rule
            if n == "cache":
                st.assume(t.eq(t.length(v), t.length(old)))
        r = eng.fresh(c)
        ti = eng.tinfo(c.destty)
        if ti[0] == "enum" or "Option" in c.destty:
            eng.disc_types[t.disc(r)] = [0, 1]
        return [(st, r)]
    return f


def users(cx):
    """Functions that are given the minimisation data mutably."""
    for key, body in scan.bodies(cx.lib):
        if body.kind == "Closure":
            continue
        tys = [body.locals[i + 1][0] for i in range(body.argc)]
        if any(ty.startswith("&mut") and MIN in ty for ty in tys):
            yield key, body


def minimize(cx):
    entry = cx.key(derive.MINIMIZE)
    us = dict(users(cx))
    calls = {k: {r.get("key") for r, *_ in scan.calls(b)} for k, b in us.items()}
    reach = {k: set(v) for k, v in calls.items()}
    for _ in us:
        for k in us:
            for c in list(reach[k]):
                reach[k] |= reach.get(c, set())
    deep = {k for k in us if k != entry and (any(c in reach and c in reach[c] for c in
                                                 reach[k] | {k}) or len(us[k].loops) > 1)}
    pr = prims.allp()
    for k in deep:
        pr[scan.base(us[k].path)] = contract(cx)
    tot = {}
    for k in [entry] + sorted(deep):
        one(cx, k, us[k] if k in us else cx.lib.body(k), dict(pr), tot, k == entry)
    cx.ob(tot.get("cache", 0) > 0, "c08:cache", "the redundancy cache is never written",
          cx.where(derive.MINIMIZE))


def unassigned(cx):
    e = cx.engine()
    for c in cx.lib.d["consts"]:
        if c["path"].endswith("TrailIndex::UNASSIGNED"):
            return e.const(State(), c)
    return None


def one(cx, key, body, pr, tot, entry):
    w = cx.where(body.path)
    mine = scan.base(body.path)
    pr.pop(mine, None)
    im = cx.param(key, MIN)
    a = [mk("sym", "a%d" % i) for i in range(body.argc)]
    tr = None
    for i in range(body.argc):
        ty = body.locals[i + 1][0]
        if PROP in ty and "minimize" not in ty:
            tr = View(cx, mk("pt", a[i]), PROP).trail
        elif TRAIL in ty and tr is None:
            tr = View(cx, mk("pt", a[i]), TRAIL)
    lv = Levels(cx, tr)
    un = unassigned(cx)
    neutral = lambda s, x: eqv(s, x, un)
    ic = [i for i in range(body.argc) if body.locals[i + 1][0].startswith("&mut std::vec::Vec<"
                                                                         "starlit::lit::Lit")]
    rule = Scratch(cx, a[im], lv, neutral, a[ic[0]] if ic else None)
    st = State()
    st.preds = {"NONE": Value(lambda x, s: x, none), "UNAS": Value(lv.of, neutral)}
    stack = cx.lay.get(mk("pt", a[im]), MIN, "stack", FTY[(MIN, "stack")])
    st.assume(t.eq(t.length(stack), ZERO))
    e, _, outs = cx.run(key, args=dict(enumerate(a)), st=st, rule=rule, pr=pr)
    for k, v in rule.n.items():
        tot[k] = tot.get(k, 0) + v
    for s, _ in outs:
        rule.settled(e, s, w)
        cx.ob(eqv(s, t.length(rule.get(e, s, "stack")), ZERO), "c08:stack", "the traversal stack "
              "may not be empty on return", w)
        cache = rule.get(e, s, "cache")
        for m in events(s, "taken"):
            x = m.args[1]
            cx.ob(eqv(s, t.length(x), ZERO) or s.decide_all(
                mk("all", x, ZERO, t.length(x), "NONE", cache)) is True, "c08:cache:kept",
                "positions are removed from the list without their cache entries being reset", w)
        if not entry:
            v = rule.get(e, s, "first_on_level")
            cx.ob(v is cx.lay.get(mk("pt", a[im]), MIN, "first_on_level",
                                  FTY[(MIN, "first_on_level")]), "c08:first:other",
                  "first positions are changed while redundancy is decided", w)
            continue
        cx.ob(eqv(s, t.length(rule.get(e, s, "to_clean")), ZERO), "c08:list", "the list of "
              "positions to clean may not be empty on return", w)
        if rule.n.get("first"):
            v = rule.get(e, s, "first_on_level")
            end = core(e.rd(s, P(rule.clause)))
            ok = any(val and f[3] == "UNAS" and core(f[0]) is end and f[1] is ZERO and
                     eqv(s, f[2], t.length(f[0])) and (f[4] is v or s.preds["UNAS"].persists(
                         s, f[4], v)) for f, val in s.alls.items())
            cx.ob(ok, "c08:first:reset", "the first position may still be recorded for the level "
                  "of a literal of the clause", w)


def core(a):
    while a.op in ("rev", "push"):
        a = a.args[0]
    return a


# ------------------------------------------------------------------ queries
def owners(cx):
    """Nobody else writes the scratch data."""
    cm = scan.callmap(cx.lib)
    for adt, ns in ((MIN, ("cache", "to_clean", "first_on_level", "stack")),
                    (CA, ("current_clause_lits", "current_level_lit_count", "glue_level_flags",
                          "minimize_clause"))):
        for n in ns:
            for p in sorted(c34.writers(cx, adt, n)):
                bad = scan.only_from(cm, p, {ANALYZE})
                cx.ob(not bad, "c08:writer:%s:%s" % (n, p), "%s is changed in %s, called by %s" %
                      (n, p, ", ".join(sorted(bad))), p)
