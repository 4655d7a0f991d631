"""Lock-step of values and trail, by abstract interpretation of every function that assigns or
unassigns variables.

For every such function (found by scanning all MIR bodies for calls of PartialAssignment::assign and
unassign) the changes of the values are compared with the changes of the trail at every return and
at every loop head: each assigned literal has exactly one pushed step with the same literal, and the
position table entry of its variable is the index of that step; no position entry changes otherwise.
At each assignment the variable must be provably unassigned; for the primitives that assign their
argument this is required of each caller.  Values are only cleared for entries cut off the trail."""
from .common import *
from .. import prims
from . import scan

RULE = "values and trail change in pairs at every return and loop head; assign only if unassigned"
ASSUMES = ["contract of PartialAssignment (checked by C19)",
           "the first literal of a learned clause is unassigned after backtracking (C35, C36)"]

TR = "starlit::prop::trail::"
# primitives: the assigned literal is an argument; their callers have to show it is unassigned
PRIMS = (TR + "assign_raw", TR + "assign", TR + "assign_decision")


class Sync(Rule):
    def __init__(self, cx, where):
        self.cx = cx
        self.where = where      # state -> (values, steps, index)
        self.root = None

    def check(self, eng, st, what, fr, span=None):
        if not self.where:
            return
        r = in_sync(self.cx, eng, st, self.where(eng, st))
        self.cx.ob(r is None, "c04:%s:%s" % (self.root, what),
                   "values and trail disagree at a %s: %s" % (what, r),
                   at(fr, span) if fr else self.root)

    def on_backedge(self, eng, st, fr, h):
        if fr.crate is self.cx.lib and scan.is_local(fr.body):
            self.check(eng, st, "loop", fr, fr.body.blocks[h]["sp"])

    def loop_candidates(self, eng, fr, h, head, phis, states):
        if fr.crate is self.cx.lib and scan.is_local(fr.body):
            for s in states:
                self.check(eng, s, "loop", fr, fr.body.blocks[h]["sp"])
        return ()


def origin(x):
    return ("phi", x.args[0]) if x.op == "phi" else ("init",)


def in_sync(cx, eng, st, loc):
    """None or a description of the mismatch of values, steps and position table."""
    V, S, X = loc
    vb, vops = chain(V, "asg", "uns")
    sb, sops = chain(S, "push")
    xb, xops = chain(X, "store")
    asg = [o.args[1] for o in reversed(vops) if o.op == "asg"]
    uns = [o.args[1] for o in reversed(vops) if o.op == "uns"]
    pushed = [(o.args[0], View(cx, o.args[1], STEP)) for o in reversed(sops)]
    if uns:
        if asg or pushed:
            return "assignments and their removal are mixed"
        return None
    if len(asg) != len(pushed):
        return "%d literals assigned but %d trail entries added" % (len(asg), len(pushed))
    stores = [(o.args[1], o.args[2]) for o in reversed(xops)]
    if len(stores) != len(pushed):
        return "%d position entries for %d trail entries" % (len(stores), len(pushed))
    left = list(stores)
    todo = list(pushed)
    for l in asg:
        hit = None
        for p in todo:
            if eqv(st, p[1].assigned_lit, l):
                hit = p
                break
        if hit is None:
            return "the assigned literal is not the one of the new trail entry"
        todo.remove(hit)
        n = t.length(hit[0])
        ok = None
        for i, v in left:
            if eqv(st, i, var(l)) and (eqv(st, v, n) or eqv(st, v, t.trunc(n, 32))):
                ok = (i, v)
        if ok is None:
            return "the recorded position is not the index of the trail entry"
        left.remove(ok)
    return None


class Guard(object):
    """Wraps the assignment contract: the variable has to be unassigned."""

    def __init__(self, cx, exempt=None):
        self.cx = cx
        self.exempt = exempt
        self.n = 0
        self.root = None

    def assign(self, eng, st, c):
        V = eng.read(st, c.args[0])
        l = c.args[1]
        self.n += 1
        free = st.assigned(V, var(l)) is False
        if not free and self.exempt is not None and eqv(st, l, self.exempt):
            free = True
        site = c.fr
        while site.parent is not None and site.body.path.startswith(PRIMS):
            site = site.parent
        self.cx.ob(free, "c04:%s:unassigned" % self.root,
                   "a variable may be assigned although it already has a value (in %s)"
                   % site.body.path, at(c.fr, c.span))
        return prims.pa_assign(eng, st, c)


def run(cx):
    todo = []
    direct = set()
    for k, b in scan.bodies(cx.lib):
        if b.path.startswith(prims.PA) or "PartialAssignment" in b.path:
            continue
        for rec, tm, sp, _ in scan.calls(b):
            if rec and scan.callee(rec) in (prims.PA + "assign", prims.PA + "unassign"):
                direct.add(b.path)
    cx.ob(bool(direct), "c04:sites", "no assignment site found")
    done = set()

    def go(path, pr=None, exempt=None, st=None, args=None, guard=True):
        key = cx.key(path)
        n = cx.lib.body(key).argc
        a = [mk("sym", "a%d" % i) for i in range(n)]
        for i, v in (args or {}).items():
            a[i] = v
        ps = cx.params(key)
        where = None
        for i, p in enumerate(ps):
            if PROP in p:
                where = lambda e, s, i=i: vst(post(e, cx, s, a[i], PROP))
            elif SEARCH in p:
                where = lambda e, s, i=i: vst(post(e, cx, s, a[i], SEARCH).prop)
        if where is None:
            iv = [i for i, p in enumerate(ps) if "PartialAssignment" in p]
            it = [i for i, p in enumerate(ps) if p.endswith(TRAIL)]
            if iv and it:
                def where(e, s):
                    tr = post(e, cx, s, a[it[0]], TRAIL)
                    return e.getbase(s, P(a[iv[0]])), tr.steps, tr.trail_index
        rule = Sync(cx, where)
        rule.root = path
        pr = dict(pr or prims.allp())
        g = Guard(cx, exempt(a) if callable(exempt) else exempt)
        g.root = path
        if guard:
            pr[prims.PA + "assign"] = g.assign
        e, _, outs = cx.run(key, args=dict(enumerate(a)), st=st(a) if st else None, rule=rule,
                            pr=pr)
        for s, r in outs:
            rule.check(e, s, "return", None)
        cx.ob(where is None or bool(outs), "c04:%s:returns" % path, "%s never returns" % path)
        done.update(e.analysed)
        return e, g

    def vst(p):
        return p.values, p.trail.steps, p.trail.trail_index

    # the primitives assign their argument
    def param_lit(path):
        key = cx.key(path)
        ps = cx.params(key)

        def f(a):
            for i, p in enumerate(ps):
                if p == STEP:
                    return View(cx, a[i], STEP).assigned_lit
                if p == "starlit::lit::Lit":
                    return a[i]
            return None
        return f
    for p in PRIMS:
        if cx.lib.find(p):
            go(p, exempt=param_lit(p))
    go("starlit::prop::add_clause_verbatim")
    go("starlit::prop::unit_prop::propagate")
    go("starlit::prop::trail::backtrack_to_level")
    # a decision is an unassigned variable
    go("starlit::search::search_step", pr=step_prims(cx))
    # the asserting literal was just unassigned
    learn = scan.learning(cx, PRIMS)
    lk = cx.key(learn)
    ia = cx.param(lk, CA)
    ip = cx.param(lk, PROP)

    def pre_learn(a):
        from ..state import State
        s = State()
        l = t.sel(View(cx, mk("pt", a[ia]), CA).derived_clause, ZERO)
        s.assume(mk("as", View(cx, mk("pt", a[ip]), PROP).values, var(l)), False)
        return s
    go(learn, st=pre_learn)
    for path in sorted(direct):
        if path not in done:
            go(path)
    callers(cx)


def callers(cx):
    """Every caller of a primitive was analysed with the guard."""
    known = set(PRIMS) | {"starlit::prop::add_clause_verbatim", "starlit::search::search_step",
                          scan.learning(cx, PRIMS),
                          "starlit::conflict_analysis::analyze_conflict",
                          "starlit::prop::unit_prop::propagate"}
    seen = set()
    for e in cx.engines:
        seen |= e.analysed
    for k, b in scan.bodies(cx.lib):
        for rec, tm, sp, _ in scan.calls(b):
            if rec and scan.callee(rec) in PRIMS:
                cx.ob(b.path in seen, "c04:caller:" + b.path,
                      "an assignment in %s was not reached by the analysis" % b.path,
                      "%s at %s" % (b.path, scan.line(sp)))


def step_prims(cx):
    """search_step with everything but the decision summarised."""
    pr = prims.allp()

    def hav(eng, st, c):
        for x, ty in zip(c.args, c.argtys):
            if "mut" in ty:
                b, p = eng.deref(st, x)
                eng.wr(st, b, p, eng.fresh(c, "hv%d" % c.args.index(x)), c.fr, c.span)
        v = eng.fresh(c)
        if eng.tinfo(c.destty)[0] == "enum":
            eng.disc_types[t.disc(v)] = eng.tinfo(c.destty)[2]
        return [(st, v)]
    for p in ("starlit::prop::unit_prop::propagate", "starlit::prop::collect_garbage",
              "starlit::conflict_analysis::analyze_conflict"):
        pr[p] = hav
    return pr
