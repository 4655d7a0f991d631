"""Availability of unassigned variables for decisions.

The decision picker is analysed from an arbitrary pool and assignment with a typestate on the keys it
takes out of the heap: each must be known to be assigned before the next one is taken, or be the
returned, unassigned variable; 'none' is only returned on paths that saw the heap empty.  The search
step must assign what it picked.  Variables enter when the tables are resized (all new keys
enqueued) and whenever backtracking undoes an assignment (quantified over all removed entries, and
followed through the callbacks of every caller).  A query over the call graph establishes that no
other function takes keys out of the pool or replaces it."""
from .common import *
from .. import prims
from . import scan, c01, c03

RULE = "typestate of keys taken from the pool; resize, backtracking and call sites of the heap"
ASSUMES = ["contract of the heap (C22)", "values are cleared only by backtracking (C03, C04)"]

VSIDS = "starlit::search::vsids::Vsids"
HEAP = "starlit::heap::MaxHeap::<Key, Value>::"
TAKERS = ("pop_max", "dequeue")


def run(cx):
    picker(cx)
    step(cx)
    grow(cx)
    c03.backtrack(Only(cx, "c03:callbacks"))
    c03.components(Only(cx, "c03:vsids", "c03:component:%s" % VSIDS, "c03:forward"))
    c03.callers(Only(cx, "c03:caller"))
    takers(cx)


def heap(cx, v):
    h = View(cx, v, VSIDS).activity
    return getattr(h, "t", h)


def picker(cx):
    key = cx.key(POPVAR)
    iv, ia = cx.param(key, VSIDS), cx.param(key, "PartialAssignment")
    w = cx.where(POPVAR)
    pr = prims.allp()
    a = [mk("sym", "a%d" % i) for i in range(2)]
    V = mk("pt", a[ia])

    def settled(st, k):
        return st.assigned(V, k) is True

    def fine(st, m):
        return m.op != "took" or settled(st, m.args[0])

    class R(Rule):
        def on_backedge(self, eng, st, fr, h):
            st.ms = tuple(m for m in st.ms or () if not fine(st, m))

    def pop(eng, st, c):
        st.ms = tuple(m for m in st.ms or () if not fine(st, m))
        # the key belongs to this moment; a later one is another variable
        k = mk("sym", "popped", c.fr.ctx, c.block)
        cx.ob(mk("took", k) not in st.ms, "c02:lost", "an unassigned variable is taken out of "
              "the pool and not returned", at(c.fr, c.span))
        out = []
        for s, r in prims.mh_pop(eng, st, c):
            if r.args[0] == 1:
                s.ms += (mk("took", k),)
                out.append((s, t.en(1, k)))
            else:
                s.ms += (mk("empty"),)
                out.append((s, r))
        return out

    def enq(eng, st, c):
        k = c.args[1]
        if eng.ty(c.argtys[1]).get("path") == "starlit::lit::Lit":
            k = var(k)
        st.ms = tuple(m for m in st.ms or () if not (m.op == "took" and eqv(st, m.args[0], k)))
        return prims.mh_enqueue(eng, st, c)

    def deq(eng, st, c):
        cx.ob(settled(st, c.args[1]), "c02:dequeue", "an unassigned variable is removed from the "
              "pool", at(c.fr, c.span))
        return prims.mh_dequeue(eng, st, c)
    pr[HEAP + "enqueue"] = enq
    pr[HEAP + "pop_max"] = pop
    pr[HEAP + "dequeue"] = deq
    e, _, outs = cx.run(key, args=dict(enumerate(a)), rule=R(), pr=pr)
    kinds = set()
    for s0, r0 in outs:
        for s, some_, r in variants(e, s0, r0, 2):
            kinds.add(some_)
            took = [m.args[0] for m in s.ms or () if m.op == "took"]
            for k in took:
                cx.ob(settled(s, k) or (some_ and eqv(s, k, t.vfld(r, 1, 0))), "c02:lost",
                      "an unassigned variable is taken out of the pool and not returned", w)
            if some_:
                x = t.vfld(r, 1, 0)
                cx.ob(s.assigned(V, x) is False, "c02:unassigned", "the picker returns a variable "
                      "that is not known to be unassigned", w)
                cx.ob(any(eqv(s, k, x) for k in took), "c02:from-pool", "the picker returns a "
                      "variable that was not in the pool, or loses the one it took out", w)
            else:
                cx.ob(any(m.op == "empty" for m in s.ms or ()), "c02:none", "the picker reports that "
                      "none is left although the pool is not empty", w)
    cx.ob(kinds == {0, 1}, "c02:kinds", "the picker cannot both succeed and fail", w)


def step(cx):
    key = cx.key(c01.STEPFN)
    isr = cx.param(key, SEARCH)
    e, a, outs = cx.run(key, pr=c01.contracts(cx), st=c01.nonempty(cx, isr))
    w = cx.where(c01.STEPFN)
    for s, _ in outs:
        V = post(e, cx, s, a[isr], SEARCH).prop.values
        pops = [q for q in events(s, "pop") if q.args[2].args[0] == 1]
        cx.ob(len(pops) <= 1, "c02:one", "several variables are taken out of the pool", w)
        for q in pops:
            cx.ob(s.assigned(V, q.args[2].args[1]) is True, "c02:assigned",
                  "a variable taken out of the pool is not assigned", w)


def grow(cx):
    """Resizing the solver state enqueues all new variables."""
    path = "<starlit::state::State as starlit::tracking::Resize>::resize"
    key = cx.key(path)
    ist = 0
    e, a, outs = cx.run(key)
    w = cx.where(path)
    for s, _ in outs:
        po = post(e, cx, s, a[ist], STATE).search.vsids
        p0 = pre(e, cx, a[ist], STATE).search.vsids
        h, h0 = getattr(po.activity, "t", po.activity), getattr(p0.activity, "t", p0.activity)
        ok = h.op == "hrsz" and eqv(s, h.args[0], h0) and eqv(s, h.args[1], a[1])
        cx.ob(ok, "c02:resize", "the decision pool is not extended to all new variables", w)
        if ok:
            cx.ob(h.args[2] == "resize_enqueued", "c02:resize-enqueued",
                  "new variables are not put into the decision pool", w)
    cx.ob(bool(outs), "c02:resize-returns", "resizing the state never returns", w)


def takers(cx):
    cm = scan.callmap(cx.lib)
    n = 0
    for m in TAKERS:
        for p in sorted(cm.get(HEAP + m, ())):
            if p.startswith("starlit::heap::"):
                continue
            n += 1
            bad = scan.only_from(cm, p, {POPVAR})
            cx.ob(not bad, "c02:taker:%s" % p, "%s takes variables out of the decision pool" % p, p)
    cx.ob(n > 0, "c02:takers", "no function takes variables out of the decision pool")
    # the pool itself is only handed to methods of the heap, and never replaced
    for k, b in scan.bodies(cx.lib):
        if b.path.startswith("starlit::heap::") or b.path.startswith("<starlit::heap::"):
            continue
        for rec, tm, sp, _ in scan.calls(b):
            if rec is None:
                continue
            for o in tm[2]:
                if o[0] not in ("c", "m"):
                    continue
                pl = o[1]
                ty = b.locals[pl[0]][0] if len(pl) == 1 else ""
                if ty.startswith("&mut ") or ty.startswith("&'"):
                    inner = ty.split(" ", 1)[1] if " " in ty else ty
                    if inner.startswith(("starlit::heap::MaxHeap<starlit::lit::Var",
                                         "mut starlit::heap::MaxHeap<starlit::lit::Var")):
                        c = scan.callee(rec)
                        cx.ob(c.startswith(("starlit::heap::", "<starlit::heap::"))
                              or c.startswith(("starlit::", "<starlit::")),
                              "c02:pool:%s" % b.path, "%s hands the decision pool to %s" % (
                                  b.path, c), scan.line(sp))
        for pl, use, sp in scan.places(b):
            fs = scan.fields_of(cx.lib, b, pl)
            if use == "write" and fs and fs[-1][2]:
                adt, i, _ = fs[-1]
                try:
                    d = cx.lay.adt(adt)[1]
                except Exception:
                    continue
                ty = d["variants"][0]["fields"][i]["ty"] if d.get("adt") == "struct" else ""
                if ty.startswith(("starlit::heap::MaxHeap<starlit::lit::Var", VSIDS)):
                    cx.ob(False, "c02:replaced:%s" % b.path, "%s replaces the decision pool"
                          % b.path, scan.line(sp))
