"""Shared vocabulary of the rules."""
from .. import terms as t
from ..terms import I, mk, ZERO, ONE, TRUE, FALSE, VNIL
from ..engine import Rule

PROP = "starlit::prop::Prop"
TRAIL = "starlit::prop::trail::Trail"
STEP = "starlit::prop::trail::Step"
REASON = "starlit::prop::trail::Reason"
CTX = "starlit::context::Ctx"
SEARCH = "starlit::search::Search"
STATE = "starlit::state::State"
WATCHES = "starlit::prop::watch::Watches"
WATCH = "starlit::prop::watch::Watch"
SOLVER = "starlit::solver::Solver"
CA = "starlit::conflict_analysis::ConflictAnalysis"

# field types, used when a field was renamed
FTY = {
    (PROP, "unsat"): "bool", (PROP, "values"): "PartialAssignment",
    (PROP, "binary"): "BinaryClauses", (PROP, "long"): "ClauseArena",
    (PROP, "watches"): "Watches", (PROP, "trail"): "trail::Trail",
    (TRAIL, "trail_index"): "VecMap<starlit::lit::Var, starlit::prop::trail::TrailIndex>",
    (TRAIL, "steps"): "VecMap<starlit::prop::trail::TrailIndex, starlit::prop::trail::Step>",
    (TRAIL, "propagated"): "usize", (TRAIL, "decisions"): "std::vec::Vec<u32>",
    (STEP, "assigned_lit"): "starlit::lit::Lit", (STEP, "decision_level"): "DecisionLevel",
    (STEP, "reason"): "Reason",
    (WATCHES, "by_lit"): "VecMap<", (WATCHES, "enabled"): "bool",
    (WATCH, "clause"): "ClauseRef", (WATCH, "blocking_lit"): "starlit::lit::Lit",
    (CTX, "stats"): "Stats", (CTX, "proof"): "Option<",
    (SEARCH, "vsids"): "Vsids", (SEARCH, "phases"): "Phases", (SEARCH, "prop"): "prop::Prop",
    (SEARCH, "conflict_analysis"): "ConflictAnalysis",
}


class View(object):
    """A structured value with its type."""

    def __init__(self, cx, term, path):
        self.__dict__.update(cx=cx, t=term, path=path)

    def __getattr__(self, name):
        cx, path = self.cx, self.path
        v = cx.lay.get(self.t, path, name, FTY.get((path, name)))
        i, _ = cx.lay.idx(path, name, FTY.get((path, name)))
        ty = cx.lay.adt(path)[1]["variants"][0]["fields"][i]["ty"]
        d = cx.lib.types.get(ty, {})
        if d.get("k") == "adt" and d["path"].startswith("starlit::") and d["adt"] == "struct" \
                and d["path"] not in ("starlit::lit::Lit", "starlit::lit::Var",
                                      "starlit::util::vec_map::VecMap",
                                      "starlit::partial_assignment::PartialAssignment",
                                      "starlit::clause_arena::ClauseArena",
                                      "starlit::prop::binary::BinaryClauses",
                                      "starlit::clause_arena::ClauseRef",
                                      "starlit::prop::trail::DecisionLevel",
                                      "starlit::prop::trail::TrailIndex"):
            return View(cx, v, d["path"])
        return v


def fpath(cx, path, *names):
    """Memory path of a nested field."""
    out = ()
    for n in names:
        i, _ = cx.lay.idx(path, n, FTY.get((path, n)))
        out += cx.lay.elem(path, n, FTY.get((path, n)))
        ty = cx.lay.adt(path)[1]["variants"][0]["fields"][i]["ty"]
        path = cx.lib.types.get(ty, {}).get("path")
    return out


def P(ptr):
    return ("P", ptr)


def pre(eng, cx, ptr, path):
    return View(cx, eng.default(None, P(ptr)), path)


def post(eng, cx, st, ptr, path):
    return View(cx, eng.getbase(st, P(ptr)), path)


# ------------------------------------------------------------ comparing values

ARR = {"arr", "push", "store", "vnil", "cat", "sub", "swp", "rev", "perm", "fill", "resize",
       "splice"}


def eqv(st, a, b):
    """Whether two values are known to be equal."""
    if a is b:
        return True
    if a.op == "lin" or b.op == "lin" or (a.op == "i" and b.op not in ("en", "st")) \
            or (b.op == "i" and a.op not in ("en", "st")):
        return st.decide(t.eq(a, b)) is True
    if a.op == b.op and a.op in ("st", "en", "arr", "push", "store", "cat", "asg", "uns", "rsz",
                                 "enq", "deq", "hset", "ref") and len(a.args) == len(b.args):
        ok = True
        for x, y in zip(a.args, b.args):
            if isinstance(x, t.T) and isinstance(y, t.T):
                if not eqv(st, x, y):
                    ok = False
                    break
            elif x != y:
                ok = False
                break
        if ok:
            return True
    if a.op in ("bool", "le", "eq", "not", "andb", "orb", "tv", "as") \
            or b.op in ("bool", "le", "eq", "not", "andb", "orb", "tv", "as"):
        x, y = st.decide(a), st.decide(b)
        return x is not None and x == y
    if a.op == "st" or b.op == "st":
        n = len(a.args) if a.op == "st" else len(b.args)
        if a.op != "st":
            a = t.st(*[t.fld(a, i, n) for i in range(n)])
        elif b.op != "st":
            b = t.st(*[t.fld(b, i, n) for i in range(n)])
        else:
            return False
        return all(eqv(st, x, y) for x, y in zip(a.args, b.args))
    if a.op in ARR or b.op in ARR:
        return eq_arr(st, a, b)
    if a.op in ("en",) or b.op in ("en",):
        return False
    return st.decide(t.eqo(a, b)) is True


def eq_arr(st, a, b):
    """Arrays that are known to have a small constant length are compared element by element,
    others through their tails."""
    for _ in range(40):
        if a is b:
            return True
        if a.op == "push" and b.op == "push":
            if not eqv(st, a.args[1], b.args[1]):
                return False
            a, b = a.args[0], b.args[0]
            continue
        if a.op == "store" and b.op == "store" and eqv(st, a.args[1], b.args[1]):
            if not eqv(st, a.args[2], b.args[2]):
                return False
            a, b = a.args[0], b.args[0]
            continue
        break
    la, lb = t.length(a), t.length(b)
    if st.decide(t.eq(la, lb)) is not True:
        return False
    n = const_len(st, la)
    if n is None:
        return False
    return all(eqv(st, t.sel(a, I(k), st.decide), t.sel(b, I(k), st.decide)) for k in range(n))


def const_len(st, n, most=4):
    if n.op == "i":
        return n.args[0]
    for k in range(most + 1):
        if st.decide(t.eq(n, I(k))) is True:
            return k
    return None


def split(st, cond):
    """Both cases of a condition, as far as they are possible."""
    d = st.decide(cond)
    if d is not None:
        return [(st, d)]
    out = []
    for v in (True, False):
        s = st.copy()
        if s.assume(cond, v):
            out.append((s, v))
    return out


def split_len(st, arr, n):
    """Cases len == 0, .., len == n, len > n."""
    out = []
    todo = [st]
    for k in range(n + 1):
        nxt = []
        for s in todo:
            for s2, v in split(s, t.eq(t.length(arr), I(k))):
                if v:
                    out.append((s2, k))
                else:
                    nxt.append(s2)
        todo = nxt
    out += [(s, None) for s in todo if s.assume(t.lt(I(n), t.length(arr)))]
    return out


def same_but(cx, st, a, b, except_=()):
    """Names of the fields of two structures that are not known to be equal."""
    fs = cx.lay.adt(a.path)[1]["variants"][0]["fields"]
    bad = []
    for f in fs:
        if f["name"] in except_:
            continue
        x, y = getattr(a, f["name"]), getattr(b, f["name"])
        if isinstance(x, View):
            x, y = x.t, y.t
        if not eqv(st, x, y):
            bad.append(f["name"])
    return bad


def neg(c):
    return t.bxor(c, ONE)


def var(c):
    return t.shr(c, ONE)


def chain(a, *ops):
    """Strips the outermost operations of the given kinds; returns (inner, [ops outside-in])."""
    out = []
    while a.op in ops:
        out.append(a)
        a = a.args[0]
    return a, out


def at(fr, span):
    if fr is None:
        return ""
    if span and isinstance(span, (list, tuple)):
        return "%s at %s:%s" % (fr.body.path, span[0], span[1])
    return fr.body.path


# ------------------------------------------------------------ quantified facts over loops

def int_bounds(head, phis, states, group_sigma):
    """(phi, entry value) of the integer loop variables."""
    out = []
    for loc, ph in phis.items():
        v = group_sigma[0].get(ph)
        if v is not None and v.op in ("i", "lin", "fld", "sel", "len", "tr", "shr", "sym", "hget"):
            out.append((ph, v))
    return out


class AllRule(Rule):
    """Proposes quantified facts over given arrays for every integer loop variable.

    self.targets(eng, head) yields (array term, predicate name, version term)."""

    def targets(self, eng, head, phis):
        return ()

    def offsets(self, a):
        return ()

    def loop_alls(self, eng, fr, h, head, phis, states, sigma):
        out = []
        ivs = int_bounds(head, phis, states, sigma)
        for a, p, v in self.targets(eng, head, phis):
            for ph, e in ivs:
                for o in (ZERO,) + tuple(self.offsets(a)):
                    x, y = t.add(o, e), t.add(o, ph)
                    out.append(mk("all", a, x, y, p, v))
                    out.append(mk("all", a, y, x, p, v))
        return out


class Pred(object):
    def check(self, st, a, i, v):
        return False

    def persists(self, st, v_old, v_new):
        return v_old is v_new


def hav_call(eng, st, c, tag="hv"):
    """Contract: everything reachable through mutable references changes arbitrarily."""
    for k, (x, ty) in enumerate(zip(c.args, c.argtys)):
        if ty.startswith("&mut"):
            b, p = eng.deref(st, x)
            eng.wr(st, b, p, eng.fresh(c, "%s%d" % (tag, k)), c.fr, c.span)
    v = eng.fresh(c)
    if eng.tinfo(c.destty)[0] == "enum":
        eng.disc_types[t.disc(v)] = eng.tinfo(c.destty)[2]
    if eng.ty(c.destty)["k"] == "tuple" and not eng.ty(c.destty)["tys"]:
        v = t.UNIT
    return [(st, v)]


def variants(eng, st, v, n):
    """Cases (state, variant, payload getter) of an enum value with n variants."""
    if v.op == "en":
        return [(st, v.args[0], v)]
    out = []
    d = t.disc(v)
    rest = st
    for k in range(n):
        s = rest.copy()
        if s.assume(t.eq(d, I(k))):
            out.append((s, k, v))
    return out


def event(st, name, *xs):
    st.ms = tuple(st.ms or ()) + (mk("ev", name, *xs),)


def events(st, name=None):
    return [m for m in (st.ms or ()) if m.op == "ev" and (name is None or m.args[0] == name)]


def arg(c, what, need=True):
    """Argument of a call by (part of) its type."""
    hit = [x for x, ty in zip(c.args, c.argtys) if what in ty]
    return hit[0] if hit else None


def arg_view(eng, cx, st, c, adt):
    """View of the structure behind a reference argument."""
    x = arg(c, adt)
    return None if x is None else View(cx, eng.read(st, x), adt)


def hav_fields(eng, cx, st, c, adt, *fields):
    """Forgets some fields of the structure behind the argument of this type."""
    b, p = eng.deref(st, arg(c, adt))
    for f in fields:
        names = f.split(".")
        eng.wr(st, b, p + fpath(cx, adt, *names), eng.fresh(c, f), c.fr, c.span)


# ------------------------------------------------------------ contracts of solver functions

PROPAGATE = "starlit::prop::unit_prop::propagate"
ANALYZE = "starlit::conflict_analysis::analyze_conflict"
COLLECT = "starlit::prop::collect_garbage"
POPVAR = "starlit::search::vsids::Vsids::pop_decision_var"
BACKTRACK = "starlit::prop::trail::backtrack_to_level"


def collect_contract(cx):
    """Garbage collection moves clauses; values and the shape of the trail stay (C14)."""
    def f(eng, st, c):
        hav_fields(eng, cx, st, c, PROP, "long", "watches", "trail.steps")
        event(st, "collect")
        v = eng.fresh(c)
        if eng.tinfo(c.destty)[0] == "enum":
            eng.disc_types[t.disc(v)] = eng.tinfo(c.destty)[2]
        return [(st, v)]
    return f


def propagate_contract(cx):
    """Propagation adds assignments of the current level (C05, C07)."""
    def f(eng, st, c):
        hav_fields(eng, cx, st, c, PROP, "values", "long", "watches", "trail.steps",
                   "trail.trail_index", "trail.propagated")
        p = arg_view(eng, cx, st, c, PROP)
        v = eng.fresh(c)
        eng.disc_types[t.disc(v)] = [0, 1]
        out = []
        for s, ok in eng.fork(st, t.eq(t.disc(v), ZERO)):
            event(s, "propagate", I(1 if ok else 0), p.values, p.trail.decisions, t.vfld(v, 1, 0))
            out.append((s, t.en(0, t.UNIT) if ok else t.en(1, t.vfld(v, 1, 0))))
        return out
    return f


class Only(object):
    """A view of the check context that keeps only some obligations (for parts shared by two
    properties)."""

    def __init__(self, cx, *keys):
        self._cx, self._keys = cx, keys

    def __getattr__(self, n):
        return getattr(self._cx, n)

    def ob(self, ok, key, msg, where=None):
        if any(key.startswith(k) for k in self._keys):
            return self._cx.ob(ok, key, msg, where)
        return ok


ADDED = "starlit::prop::AddedClause"
ASSIGN_RAW = "starlit::prop::trail::assign_raw"


def verbatim_contract(cx):
    """add_clause_verbatim by the statement of C31, recorded as event `store`."""
    def f(eng, st, c):
        lits = eng.read(st, arg(c, "[starlit::lit::Lit]"))
        event(st, "store", lits, arg(c, "LongHeader"))
        V = lambda n: cx.lay.variant(ADDED, n)
        out = []
        for s, k in split_len(st, lits, 2):
            at_ = lambda i: t.sel(lits, I(i), s.decide)
            if k == 0:
                hav_fields(eng, cx, s, c, PROP, "unsat")
                r = t.en(V("Empty"))
            elif k == 1:
                hav_fields(eng, cx, s, c, PROP, "unsat", "values", "trail.steps",
                           "trail.trail_index")
                out.append((s.copy(), t.en(V("Empty"))))
                r = t.en(V("Unit"), at_(0))
            elif k == 2:
                hav_fields(eng, cx, s, c, PROP, "binary")
                r = t.en(V("Binary"), mk("arr", at_(0), at_(1)))
            else:
                b, p = eng.deref(s, arg(c, PROP))
                new = eng.fresh(c, "newclause")
                lp = fpath(cx, PROP, "long")
                eng.wr(s, b, p + lp + (("x", new),), t.st(arg(c, "LongHeader"), lits), c.fr, c.span)
                hav_fields(eng, cx, s, c, PROP, "watches")
                r = t.en(V("Long"), new)
            out.append((s, r))
        return out
    return f
