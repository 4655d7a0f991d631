"""The empty clause in the proof, by abstract interpretation of every function that can mark the
formula unsatisfiable.

The functions that write `unsat` are found by a query; each must lie below one of the analysed roots
(search_step, add_clause_verbatim) or is analysed itself.  On every abstract path of a root on which
`unsat` becomes set, the empty clause was handed to the active proof writer, unless no writer is
active or the added clause itself is empty (then it is part of the input, or of the proof already)."""
from .common import *
from .. import prims
from . import scan, c01

RULE = "on every path that newly sets unsat, the empty clause is logged if a proof is active"
ADD = "starlit::prop::add_clause_verbatim"
LOGADD = "starlit::proof::Proof::add_clause"


def logging(pr):
    def add(eng, st, c):
        event(st, "logadd", eng.read(st, c.args[1]))
        return [(st, t.UNIT)]

    def dele(eng, st, c):
        event(st, "logdel", eng.read(st, c.args[1]))
        return [(st, t.UNIT)]
    pr[LOGADD] = add
    pr["starlit::proof::Proof::delete_clause"] = dele
    return pr


def is_empty(st, arr):
    return st.decide(t.eq(t.length(arr), ZERO)) is True


def proof_none(eng, cx, s, ptr):
    """Whether no proof writer is active (in the state before and after)."""
    p = post(eng, cx, s, ptr, CTX).proof
    return p.op == "en" and p.args[0] == 0 or s.decide(t.eq(t.disc(p), ZERO)) is True


def writers(cx):
    out = set()
    i, _ = cx.lay.idx(PROP, "unsat", "bool")
    for k, b in scan.bodies(cx.lib):
        if "as std::default::Default" in b.path or "as starlit::tracking::Resize" in b.path:
            continue
        for pl, use, sp in scan.places(b):
            fs = scan.fields_of(cx.lib, b, pl)
            if fs and fs[-1] == (PROP, i, True) and use in ("write", "refmut"):
                out.add(scan.base(b.path))
    return out


def run(cx):
    roots = {}
    roots[c01.STEPFN] = (c01.contracts(cx, also=()), SEARCH)
    roots[ADD] = (prims.allp(), PROP)
    ws = writers(cx)
    cx.ob(bool(ws), "c11:writers", "nothing marks the formula unsatisfiable")
    cm = scan.callmap(cx.lib)
    stop = {ANALYZE, PROPAGATE, COLLECT}
    for w in sorted(ws):
        if w in roots:
            continue
        # reachable from outside of the roots, or below a function the roots do not look into?
        if scan.only_from(cm, w, set(roots)) or any(reaches(cm, w, x, set(roots)) for x in stop):
            roots[w] = (prims.allp(), None)
    for path, (pr, adt) in sorted(roots.items()):
        root(cx, path, logging(pr), adt)


def reaches(cm, w, x, stop):
    """Whether x calls w, possibly through others outside of stop."""
    todo, seen = [w], set()
    while todo:
        p = todo.pop()
        if p == x:
            return True
        if p in seen or p in stop:
            continue
        seen.add(p)
        todo.extend(cm.get(p, ()))
    return False


def root(cx, path, pr, adt):
    key = cx.key(path)
    ps = cx.params(key)
    w = cx.where(path)
    ic = [i for i, p in enumerate(ps) if "context::Ctx" in p or SOLVER in p]
    ip = [i for i, p in enumerate(ps) if any(x in p for x in (PROP, SEARCH, STATE, SOLVER))]
    if not ic or not ip:
        cx.ob(False, "c11:no-context:%s" % path, "%s marks the formula unsatisfiable without access "
              "to the proof" % path, w)
        return
    st = c01.nonempty(cx, ip[0]) if SEARCH in ps[ip[0]] else None
    e, a, outs = cx.run(key, pr=pr, st=st)
    adt = [x for x in (PROP, SEARCH, STATE, SOLVER) if x in ps[ip[0]]][0]

    def prop(v):
        v = View(cx, v, adt)
        return v if adt == PROP else v.prop if adt == SEARCH else v.search.prop if adt == STATE \
            else v.state.search.prop
    lits = [mk("pt", a[i]) for i, p in enumerate(ps) if "[starlit::lit::Lit]" in p]
    for s0, _ in outs:
        u0 = prop(mk("pt", a[ip[0]])).unsat
        u1 = prop(e.getbase(s0, P(a[ip[0]]))).unsat
        for s, was in split(s0, u0):
            if was:
                continue
            for s2, now in split(s, u1):
                if not now:
                    continue
                ok = any(is_empty(s2, m.args[1]) for m in events(s2, "logadd"))
                ok = ok or proof_none(e, cx, s2, a[ic[0]])
                ok = ok or any(is_empty(s2, l) for l in lits)
                cx.ob(ok, "c11:logged:%s" % path, "%s marks the formula unsatisfiable without "
                      "writing the empty clause to an active proof" % path, w)
    cx.ob(bool(outs), "c11:returns:%s" % path, "%s never returns" % path, w)
