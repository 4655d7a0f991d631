"""Exactness of backtracking, by abstract interpretation with quantified loop invariants.

backtrack_to_level is analysed from an arbitrary state.  At every return: the target was below the
current level; the decision list ends at the target level; the trail is the old trail cut at the
first removed decision; for *all* removed entries (a loop invariant quantified over the entries) the
value was cleared and the callback was told the removed literal; nothing beyond the remaining trail
counts as propagated; nothing else changes.  Every component implementing BacktrackCallbacks must be
reached from the callback used by the search, with the right effect on pool and phases, and every
caller must pass callbacks that refer to the components of the very same search."""
from .common import *
from .. import prims
from . import scan

RULE = "post-state of backtrack_to_level: cut trail, all removed entries cleared and reported"
ASSUMES = ["recorded decisions are positions on the trail (C07 checks where they are recorded)",
           "contract of PartialAssignment (C19), of the heap (C22)"]

BC = "starlit::prop::trail::BacktrackCallbacks"
NOTE = ("G", "notified")


class Unassigned(Pred):
    def __init__(self, cx):
        self.cx = cx

    def check(self, st, a, i, v):
        l = View(self.cx, t.sel(a, i, st.decide), STEP).assigned_lit
        return st.assigned(v, var(l)) is False

    def persists(self, st, v_old, v_new):
        while v_new is not v_old:
            if v_new.op != "uns":
                return False
            v_new = v_new.args[0]
        return True


class Notified(Pred):
    def __init__(self, cx):
        self.cx = cx

    def check(self, st, a, i, v):
        l = View(self.cx, t.sel(a, i, st.decide), STEP).assigned_lit
        while v.op == "ntf":
            if eqv(st, v.args[1], l):
                return True
            v = v.args[0]
        return False

    def persists(self, st, v_old, v_new):
        while v_new is not v_old:
            if v_new.op != "ntf":
                return False
            v_new = v_new.args[0]
        return True


class BT(AllRule):
    def __init__(self, cx, ptr, S0, tgt):
        self.tgt = tgt
        self.preds = {"UN": Unassigned(cx), "NT": Notified(cx)}
        self.cx, self.ptr, self.S0 = cx, ptr, S0

    def offsets(self, a):
        return (self.tgt,)

    def targets(self, eng, head, phis):
        pr = View(self.cx, eng.getbase(head, P(self.ptr)), PROP)
        yield self.S0, "UN", pr.values
        yield self.S0, "NT", eng.getbase(head, NOTE)


def impls(cx, trait):
    return [i for i in cx.lib.d["impls"] if i.get("trait") == trait]


def run(cx):
    backtrack(cx)
    components(cx)
    callers(cx)


def backtrack(cx):
    keys = cx.lib.find("starlit::prop::trail::backtrack_to_level",
                       lambda k: "Callbacks<" in k and "impl" not in k)
    if not keys:
        keys = [cx.key("starlit::prop::trail::backtrack_to_level")]
    key = keys[0]
    ip = cx.param(key, PROP)
    il = cx.param(key, "DecisionLevel")
    a = [mk("sym", "a%d" % i) for i in range(cx.lib.body(key).argc)]
    pr0 = View(cx, mk("pt", a[ip]), PROP)
    S0, D0, lvl = pr0.trail.steps, pr0.trail.decisions, a[il]
    tgt = t.sel(D0, t.add(lvl, ONE))
    rule = BT(cx, a[ip], S0, tgt)
    pr = prims.allp()
    w = cx.where("starlit::prop::trail::backtrack_to_level")

    def note(eng, st, c):
        g = eng.getbase(st, NOTE)
        eng.wr(st, NOTE, (), mk("ntf", g, c.args[1]), c.fr, c.span)
        return [(st, t.UNIT)]

    def unassign(eng, st, c):
        v = c.args[1]
        ok = False
        if v.op == "shr" or True:
            for s_, i in removed_index(cx, st, S0, v):
                if st.decide(t.le(tgt, i)) is True and st.decide(t.lt(i, t.length(S0))) is True:
                    ok = True
        cx.ob(ok, "c03:clears-only-removed",
              "a value is cleared although its trail entry may stay", at(c.fr, c.span))
        return prims.pa_unassign(eng, st, c)

    for k in cx.lib.raw:
        b = cx.lib.body(k)
        if b is not None and b.path.endswith("BacktrackCallbacks>::unassign") or \
                (b is not None and b.path == BC + "::unassign"):
            pr[b.path] = note
    pr[BC + "::unassign"] = note
    pr[prims.PA + "unassign"] = unassign
    from ..state import State
    st = State()
    st.preds = rule.preds
    # decisions are positions on the trail: pushed as its length (C07), and every cut of the trail
    # keeps only decisions below it (this check)
    st.assume(t.le(tgt, t.length(S0)))
    e, _, outs = cx.run(key, args=dict(enumerate(a)), st=st, rule=rule, pr=pr)
    cx.ob(bool(outs), "c03:returns", "backtrack_to_level never returns", w)
    for s, _ in outs:
        po = post(e, cx, s, a[ip], PROP)
        D, S = po.trail.decisions, po.trail.steps
        cx.ob(s.decide(t.lt(lvl, t.sub(t.length(D0), ONE))) is True, "c03:refused",
              "a target that is not below the current level is not refused", w)
        cx.ob(s.decide(t.eq(t.length(D), t.add(lvl, ONE))) is True
              and prefix_of(s, D, D0), "c03:level",
              "afterwards the decision list does not end at the target level", w)
        cx.ob(prefix_of(s, S, S0) and s.decide(t.eq(t.length(S), tgt)) is True, "c03:trail",
              "the trail is not cut exactly at the first removed decision", w)
        cx.ob(s.decide_all(mk("all", S0, tgt, t.length(S0), "UN", po.values)) is True,
              "c03:values", "a removed trail entry keeps its value", w)
        cx.ob(s.decide_all(mk("all", S0, tgt, t.length(S0), "NT", e.getbase(s, NOTE))) is True,
              "c03:callbacks", "the callbacks are not told about every removed literal", w)
        cx.ob(s.decide(t.le(po.trail.propagated, tgt)) is True, "c03:propagated",
              "entries beyond the remaining trail count as propagated", w)
        cx.ob(s.decide(t.le(po.trail.propagated, pr0.trail.propagated)) is True,
              "c03:propagated-more", "entries count as propagated after backtracking that did not "
              "before", w)
        for f in ("unsat", "binary", "long"):
            cx.ob(eqv(s, getattr(po, f), getattr(pr0, f)), "c03:frame:" + f,
                  "backtracking changes `%s`" % f, w)
        cx.ob(eqv(s, po.watches.t, pr0.watches.t), "c03:frame:watches",
              "backtracking changes the watch lists", w)


def removed_index(cx, st, S0, v):
    """Indices i with v = variable of S0[i]."""
    out = []
    stack = [v]
    seen = set()
    while stack:
        x = stack.pop()
        if not isinstance(x, t.T) or x in seen:
            continue
        seen.add(x)
        if x.op == "sel" and x.args[0] is S0:
            if eqv(st, v, var(View(cx, x, STEP).assigned_lit)):
                out.append((x, x.args[1]))
        stack.extend(y for y in x.args if isinstance(y, t.T))
    return out


def prefix_of(st, x, a):
    """Whether x is a prefix of a."""
    while x.op == "sub" and st.decide(t.eq(x.args[1], ZERO)) is True:
        if x.args[0] is a:
            return True
        x = x.args[0]
    return x is a


def method(cx, adt, m, trait=BC):
    """Body of a trait method of a local type."""
    short = adt.split("<")[0]
    for k in cx.lib.raw:
        b = cx.lib.body(k)
        if b is not None and b.path.startswith("<" + short) \
                and (" as %s>::%s" % (trait, m)) in b.path:
            return k, b
    return None, None


def components(cx):
    """The implementors of BacktrackCallbacks."""
    imps = impls(cx, BC)
    tys = sorted({i["self"] for i in imps})
    cx.ob(len(tys) >= 2, "c03:impls", "implementations of BacktrackCallbacks were not found")
    comps = [x for x in tys if x != "()" and "Callbacks" not in x]
    # effect of each component
    for ty in comps:
        k, b = method(cx, ty, "unassign")
        if b is None:
            cx.ob(False, "c03:component:%s" % ty, "%s ignores unassigned literals" % ty)
            continue
        e, a, outs = cx.run(k)
        for s, _ in outs:
            v0 = mk("pt", a[0])
            v1 = e.getbase(s, P(a[0]))
            if "Vsids" in ty:
                x = View(cx, v1, ty).activity
                x0 = View(cx, v0, ty).activity
                x, x0 = getattr(x, "t", x), getattr(x0, "t", x0)
                ok = x.op == "enq" and eqv(s, x.args[1], var(a[1])) and eqv(s, x.args[0], x0)
                cx.ob(ok, "c03:vsids", "an unassigned variable is not put back into the decision "
                      "pool", b.path)
            elif "Phases" in ty:
                x = View(cx, v1, ty).saved
                x0 = View(cx, v0, ty).saved
                ok = x.op == "store" and eqv(s, x.args[0], x0) and eqv(s, x.args[1], var(a[1]))
                cx.ob(ok, "c03:phases", "the phase of an unassigned literal is not saved for its "
                      "variable", b.path)
                if ok:
                    # what is saved is what a later decision for the variable uses
                    _, _, o2 = cx.run("starlit::search::phases::Phases::decide_phase",
                                      args={0: a[0], 1: var(a[1])}, st=s)
                    cx.ob(bool(o2) and all(eqv(s2, r, a[1]) for s2, r in o2), "c03:phase-value",
                          "the saved phase does not lead back to the unassigned literal", b.path)
            else:
                cx.ob(v1 is not v0, "c03:component:%s" % ty, "%s ignores unassigned literals" % ty,
                      b.path)
    # the callbacks of the search forward to each component
    for ty in [x for x in tys if "Callbacks" in x]:
        k, b = method(cx, ty, "unassign")
        cx.ob(b is not None, "c03:forward:none", "%s ignores unassigned literals" % ty)
        if b is None:
            continue
        pr = prims.allp()
        got = []

        def rec(eng, st, c):
            st.ms = tuple(st.ms or ()) + (mk("told", c.args[0], c.args[1]),)
            return [(st, t.UNIT)]
        for c2 in comps:
            k2, b2 = method(cx, c2, "unassign")
            if b2 is not None:
                pr[b2.path] = rec
        e, a, outs = cx.run(k, pr=pr)
        cb = mk("pt", a[0])
        n = len(cx.lay.by_path[ty.split("<")[0]][1]["variants"][0]["fields"])
        for s, _ in outs:
            for i, f in enumerate(cx.lay.by_path[ty.split("<")[0]][1]["variants"][0]["fields"]):
                if not any(c2.split("<")[0] in f["ty"] for c2 in comps):
                    continue
                ptr = t.fld(cb, i, n)
                told = [m for m in (s.ms or ()) if same_ptr(e, s, m.args[0], ptr)
                        and eqv(s, m.args[1], a[1])]
                cx.ob(len(told) >= 1, "c03:forward:%s" % f["name"],
                      "the component `%s` is not told about unassigned literals" % f["name"],
                      b.path)
        have = " ".join(f["ty"] for f in cx.lay.by_path[ty.split("<")[0]][1]["variants"][0]["fields"])
        for c2 in comps:
            cx.ob(c2.split("<")[0] in have, "c03:forward-type:%s" % c2,
                  "%s is not reached by the backtrack callbacks of the search" % c2, b.path)


def same_ptr(e, s, p, q):
    return p is q or e.deref(s, p) == e.deref(s, q)


def callers(cx):
    """Each caller passes callbacks over the components of its own search."""
    path = "starlit::prop::trail::backtrack_to_level"
    an = "starlit::conflict_analysis::analyze_conflict"
    insts = [k for k in cx.lib.find(path) + cx.lib.find(an)]
    pr = prims.allp()
    seen = []

    def use(eng, st, c):
        cbt = [(x, ty) for x, ty in zip(c.args, c.argtys) if "Callbacks" in ty]
        pp = [x for x, ty in zip(c.args, c.argtys) if PROP in ty]
        ok = bool(cbt) and bool(pp)
        if ok:
            bp, ppath = eng.deref(st, pp[0])
            want = fpath(cx, SEARCH, "prop")
            ok = ppath[len(ppath) - len(want):] == want
            root = ppath[:len(ppath) - len(want)]
            cb = eng.read(st, cbt[0][0])
            d = cx.lay.by_path["starlit::search::Callbacks"][1]["variants"][0]["fields"]
            for i, f in enumerate(d):
                tgt = t.fld(cb, i, len(d))
                b2, p2 = eng.deref(st, tgt)
                comp = [g["name"] for g in cx.lay.adt(SEARCH)[1]["variants"][0]["fields"]
                        if g["ty"] in f["ty"]]
                ok = ok and len(comp) == 1 and b2 == bp \
                    and p2 == root + fpath(cx, SEARCH, comp[0])
        seen.append(c)
        cx.ob(ok, "c03:caller:%s" % c.fr.body.path, "%s does not pass the components of its own "
              "search as callbacks" % c.fr.body.path, at(c.fr, c.span))
        return hav_call(eng, st, c)
    pr[path] = use
    pr[an] = use
    pr["starlit::prop::unit_prop::propagate"] = hav_call
    pr["starlit::prop::collect_garbage"] = hav_call
    users = set()
    for k, b in scan.bodies(cx.lib):
        for rec, tm, sp, _ in scan.calls(b):
            if rec and scan.callee(rec) in (path, an) and b.path != an:
                users.add((k, b.path))
    cx.ob(bool(users), "c03:callers", "no caller of backtrack_to_level was found")
    for k, p in sorted(users):
        if "impl " in k:
            continue
        cx.run(k, pr=pr)
    cx.ob(len(seen) >= len({p for _, p in users}), "c03:callers-seen",
          "a caller of backtrack_to_level was not reached")
