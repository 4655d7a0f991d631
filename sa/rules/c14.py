"""Clause references across a compaction: a query over the types for every place in the solver that
can hold one, abstract interpretation of the compacting functions, and liveness of locals.

The types reachable from the solver are searched for clause references; the function that compacts
(or, where it leaves the work to them, its callers) is analysed from an arbitrary state.  Where it
returns, every reference in every place found by the type query must be one that the map of this
compaction returned (quantified loop facts over the trail and every watch list); a reference may only
be replaced by the map's answer for that reference; and an entry may only be dropped after the map
answered that its clause is gone.  A liveness analysis of every function from which a compaction can
be reached shows that no local that holds a clause reference is used after it."""
import time

from .common import *
from ..engine import Limit
from ..state import State as St
from .. import prims, models
from . import scan

RULE = "every place found by type holds answers of the map when the compacting function returns"
ASSUMES = ["the map sends old places to new ones (C37)", "a list scan yields and keeps its items as "
           "documented (C21)"]

REF = "starlit::clause_arena::ClauseRef"
MAP = REF + "GcMap"
GC = prims.AR + "collect_garbage"
SEQ = {"std::vec::Vec", "std::boxed::Box"}


def adt(lib, ty):
    d = lib.types.get(ty)
    return d if d and d["k"] == "adt" else None


def inner(lib, ty):
    """Types owned (or referred to) by a type: [(type, whether in a collection)]"""
    d = lib.types.get(ty)
    if d is None:
        return []
    if d["k"] == "adt":
        if d.get("local") or d["path"].startswith("starlit"):
            return [(f["ty"], False) for v in d.get("variants", ()) for f in v["fields"]]
        many = d["path"] not in ("std::option::Option", "std::result::Result")
        return [(x, many) for x in d.get("args", ()) if isinstance(x, str)]
    if d["k"] in ("ref", "ptr"):
        return [(d["ty"], False)]
    if d["k"] in ("slice", "array"):
        return [(d["ty"], True)]
    if d["k"] == "tuple":
        return [(x, False) for x in d["tys"]]
    if d["k"] == "closure":
        return [(x, False) for x in d["upvars"]]
    return []


def holds(lib, stop=()):
    memo = {}

    def f(ty):
        d = adt(lib, ty)
        if d and d["path"] == REF:
            return True
        if d and d["path"] in stop:
            return False
        if ty in memo:
            return memo[ty]
        memo[ty] = False
        memo[ty] = any(f(x) for x, _ in inner(lib, ty))
        return memo[ty]
    return f


def places(lib, h, root):
    """(fields that hold references directly in a collection, structures on the way to them)"""
    leaf, way = set(), set()

    def walk(ty, path, seen):
        d = adt(lib, ty)
        if d is None or ty in seen:
            for x, _ in inner(lib, ty):
                if ty not in seen and h(x):
                    walk(x, path, seen | {ty})
            return
        if d["path"] == REF:
            return
        for v in d.get("variants", ()) if (d.get("local") or d["path"].startswith("starlit")) else ():
            for f in v["fields"]:
                if not h(f["ty"]):
                    continue
                fd = adt(lib, f["ty"])
                if fd is None or not fd["path"].startswith("starlit") or fd["path"] == REF or \
                        fd["path"].startswith("starlit::util"):
                    leaf.add((d["path"], f["name"]))
                    way.update(path + [d["path"]])
                else:
                    walk(f["ty"], path + [d["path"]], seen | {ty})
        if not (d.get("local") or d["path"].startswith("starlit")):
            for x, _ in inner(lib, ty):
                if h(x):
                    walk(x, path, seen | {ty})
    walk(root, [], frozenset())
    return leaf, way


class Upd(AllRule):
    def __init__(self, cx, h, roots):
        self.cx, self.h, self.roots = cx, h, roots
        self.preds = {}
        self.bad, self.seen, self.taken = {}, set(), {}
        for _, ty in roots:
            self.elements(ty, set())
        self.eng = None

    def elements(self, ty, seen):
        """Element types of the collections within a type."""
        if ty in seen or not self.h(ty):
            return
        seen.add(ty)
        el = self.element(ty)
        if el is not None:
            self.preds["UP:" + el] = Up(self, el)
        for x, _ in inner(self.cx.lib, ty):
            self.elements(x, seen)

    # -- what it means to be updated
    def updated(self, st, x, ty, M):
        lib = self.cx.lib
        d = lib.types[ty]
        if d["k"] == "adt" and d["path"] == REF:
            return x.op == "gcu" and x.args[0] is M
        ti = self.eng.tinfo(ty)
        if ti[0] == "newtype":
            return self.updated(st, x, ti[2][ti[1]], M)
        if ti[0] == "struct":
            return all(self.updated(st, t.fld(x, i, len(ti[1])), f, M)
                       for i, f in enumerate(ti[1]) if self.h(f))
        if ti[0] == "enum":
            for k, fs in enumerate(ti[1]):
                if not any(self.h(f) for f in fs):
                    continue
                if x.op == "en":
                    if x.args[0] == k and not all(
                            self.updated(st, y, f, M) for y, f in zip(x.args[1:], fs) if self.h(f)):
                        return False
                    continue
                c = t.eq(t.disc(x), I(ti[2][k]))
                dec = st.decide(c)
                if dec is False:
                    continue
                s = st
                if dec is None:
                    s = st.copy()
                    if s.assume(c) is False:
                        continue
                if not all(self.updated(s, t.vfld(x, k, i), f, M)
                           for i, f in enumerate(fs) if self.h(f)):
                    return False
            return True
        el = self.element(ty)
        if el is None:
            return False
        return st.decide_all(mk("all", x, ZERO, t.length(x), "UP:" + el, M)) is True

    def element(self, ty):
        d = self.cx.lib.types[ty]
        if d["k"] in ("slice", "array"):
            return d["ty"]
        if d["k"] == "adt" and d["path"] in SEQ:
            return d["args"][0]
        return None

    def gc(self, st):
        es = events(st, "gc")
        return es[-1].args[1] if es else None

    def arrays(self, eng, st, x, ty, out, depth=0):
        """Collections within a value."""
        if depth > 12 or not self.h(ty):
            return
        ti = eng.tinfo(ty)
        el = self.element(ty) if ty in self.cx.lib.types else None
        if el is not None:
            out.append((x, el))
        elif ti[0] == "newtype":
            self.arrays(eng, st, x, ti[2][ti[1]], out, depth + 1)
        elif ti[0] == "struct":
            for i, f in enumerate(ti[1]):
                self.arrays(eng, st, t.fld(x, i, len(ti[1])), f, out, depth + 1)

    def targets(self, eng, head, phis):
        self.eng = eng
        M = self.gc(head)
        if M is None:
            return
        out = []
        for ptr, ty in self.roots:
            self.arrays(eng, head, eng.getbase(head, P(ptr)), ty, out)
        for base, v in head.mem.items():
            if v.op == "scan":
                out.append((v.args[3], None))
        for a, el in out:
            for e in [el] if el else [k[3:] for k in self.preds]:
                yield a, "UP:" + e, M

    def loop_alls(self, eng, fr, h, head, phis, states, sigma):
        out = super().loop_alls(eng, fr, h, head, phis, states, sigma)
        for a, p, M in self.targets(eng, head, phis):
            out.append(mk("all", a, ZERO, t.length(a), p, M))
            v = sigma[0].get(a)
            x = self.element(p[3:]) if p[3:] in self.cx.lib.types else None
            if v is not None and v.op == "store" and x and self.h(x):
                # a collection within the collection, while it is rebuilt
                b = t.sel(a, v.args[1], head.decide)
                out.append(mk("all", b, ZERO, t.length(b), "UP:" + x, M))
                out.append(mk("all", a, ZERO, v.args[1], p, M))
        return out

    def within(self, m, fr, h):
        return any(g is fr and b in fr.body.loops[h] for g, b in self.taken[m.args[1]])

    def on_backedge(self, eng, st, fr, h):
        if any(self.within(m, fr, h) for m in events(st, "item")):
            self.settle(st)
        for m in events(st, "got"):
            if self.within(m, fr, h):
                self.stored(st, m, fr)
        if not events(st, "item"):
            st.ms = tuple(m for m in st.ms or () if m.args[0] != "none")

    def stored(self, st, m, fr):
        """A new place that the map gave has to be put somewhere before the next round."""
        st.ms = tuple(x for x in st.ms if x is not m)
        if m.args[1].args[0] is not self.gc(st):
            return
        seen, todo = set(), [v for b, v in st.mem.items() if b[0] == "P" or v.op == "scan"]
        while todo:
            x = todo.pop()
            if x is m.args[1]:
                self.cx.ob(True, "c14:kept", "", fr.body.path)
                return
            if isinstance(x, t.T) and x not in seen:
                seen.add(x)
                todo.extend(x.args)
        self.cx.ob(False, "c14:kept", "an entry is dropped although its clause is still there",
                   fr.body.path)

    def settle(self, st):
        """An item of a scan is done with: unless it is kept, its clauses have to be gone."""
        M = self.gc(st)
        for m in events(st, "item"):
            f = self.taken[m.args[1]][0][0]
            for r in m.args[2:]:
                if M is None:
                    continue
                self.cx.ob(any(e.args[1] is M and eqv(st, e.args[2], r) for e in events(st, "none")),
                           "c14:dropped", "an entry is dropped although its clause may still be "
                           "there", f.body.path)
        st.ms = tuple(m for m in st.ms or () if m.args[0] not in ("item", "none"))

    # -- replaced references
    def on_write(self, eng, st, base, path, new, fr, span):
        if new.op == "i" or "gcu" not in str(new)[:4000] or new.op in ("scan", "cat", "push"):
            return
        self.eng = eng
        try:
            old = eng.rd(st, base, path)
        except Exception:
            return
        self.own(eng, st, old, new, fr, span)

    def own(self, eng, st, old, new, fr, span):
        if old is new or old.op in ("undef",):
            return
        if new.op == "gcu":
            self.cx.ob(eqv(st, old, new.args[1]), "c14:own", "a clause reference is replaced by the "
                       "new place of another clause", at(fr, span))
            return
        if new.op == "st":
            for i, x in enumerate(new.args):
                if "gcu" in str(x):
                    self.own(eng, st, t.fld(old, i, len(new.args)), x, fr, span)


class Up(Pred):
    ELEMENTWISE = True

    def __init__(self, rule, ty):
        self.rule, self.ty = rule, ty

    def check(self, st, a, i, v):
        return self.rule.updated(st, t.sel(a, i, st.decide), self.ty, v)


def model(cx, rule):
    pr = prims.allp()

    def gc(eng, st, c):
        rule.eng = eng
        M = eng.fresh(c, "map")
        event(st, "gc", M)
        b, p = eng.deref(st, c.args[0])
        eng.wr(st, b, p, eng.fresh(c, "arena"), c.fr, c.span)
        return [(st, M)]
    pr[GC] = gc

    def update(eng, st, c):
        M = eng.read(st, c.args[0]) if c.argtys[0].startswith("&") else c.args[0]
        x = c.args[1]
        if M.op == "gone":
            return None
        s2 = st.copy()
        event(s2, "none", M, x)
        new = mk("gcu", M, x)
        event(st, "got", new)
        rule.taken[new] = [(g, g.block) for g in c.fr.chain()]
        return [(st, models.some(new)), (s2, prims.NONE)]
    pr[MAP + "::update"] = update

    def item(eng, x, ty):
        si, vi, n = prims._scan_layout(eng, ty)
        return t.fld(x, vi, n)

    def refs(eng, ty, x, out):
        """Clause references directly within a value."""
        ti = eng.tinfo(ty)
        d = cx.lib.types.get(ty)
        if d and d["k"] == "adt" and d["path"] == REF:
            out.append(x)
        elif ti[0] == "newtype":
            refs(eng, ti[2][ti[1]], x, out)
        elif ti[0] == "struct":
            for i, f in enumerate(ti[1]):
                if rule.h(f):
                    refs(eng, f, t.fld(x, i, len(ti[1])), out)
        return out

    def ms_next(eng, st, c):
        b, p = eng.deref(st, c.args[0])
        sc = eng.rd(st, b, p)
        rule.settle(st)
        out = prims.ms_next(eng, st, c)
        ty = eng.ty(c.destty)["args"][0]
        el = eng.ty(ty)["args"][-1]
        for s, v in out or ():
            if v.op == "en" and len(v.args) > 1 and rule.h(el):
                rs = refs(eng, el, item(eng, v.args[1], ty), [])
                k = mk("took", sc.args[1], sc.args[2])
                rule.taken[k] = [(g, g.block) for g in c.fr.chain()]
                event(s, "item", k, *rs)
        return out

    def ms_keep(eng, st, c):
        st.ms = tuple(m for m in st.ms or () if m.args[0] not in ("item", "none"))
        return prims.ms_keep(eng, st, c)

    def ms_drop(eng, s, fr, b, base, path, sp):
        rule.settle(s)
        return prims.ms_drop(eng, s, fr, b, base, path, sp)
    pr[prims.MS + "MutScan::<'a, T>::next"] = ms_next
    pr[prims.MS + "MutScanItem::<'a, 'b, T>::keep"] = ms_keep
    pr["drop " + prims.MS + "MutScan"] = ms_drop

    def user(eng, st, c):
        """Propagation and the rest of the search need the references to be those of now."""
        rule.eng = eng
        if events(st, "gc"):
            settled(cx, rule, eng, st, "when %s is called" % c.path)
            return []
        return hav_call(eng, st, c)
    for p in (PROPAGATE, ANALYZE, BACKTRACK):
        pr[p] = user
    return pr


def settled(cx, rule, eng, s, where):
    """Whether every reference is up to date: notes down the places where it is not."""
    es = events(s, "gc")
    if not es:
        return
    if len(es) > 1:
        rule.bad["c14:twice"] = "%s is reached after two compactions" % where
    for ptr, ty in rule.roots:
        for (a, f), ok in sorted(per_place(cx, rule, eng, s, ptr, ty, es[-1].args[1]).items()):
            k = "c14:updated:%s.%s" % (a, f)
            rule.seen.add(k)
            if not ok:
                rule.bad[k] = "references in %s.%s can be those from before the compaction %s" % (
                    a, f, where)


def run(cx):
    lib = cx.lib
    h = holds(lib)
    sol = [ty for ty, d in lib.types.items() if d["k"] == "adt" and d.get("path") == SOLVER]
    cx.ob(bool(sol), "c14:solver", "the solver type is not recognised")
    leaf, way = places(lib, h, sol[0])
    cx.note("places that hold clause references: %s" % ", ".join(".".join(x) for x in sorted(leaf)))
    cx.ob(bool(leaf), "c14:places", "no place holds clause references")
    cm = scan.callmap(lib)
    todo = set(cm.get(GC, ()))
    cx.ob(bool(todo), "c14:calls", "nothing compacts the clause storage")
    done, lower, end = set(), {}, cx.shared["deadline"]
    while todo:
        f = sorted(todo)[0]
        todo.discard(f)
        if f in done:
            continue
        done.add(f)
        up = set(cm.get(f, ()))
        try:
            cx.shared["deadline"] = min(end, time.time() + (60 if lower else 1000))
            bad = compacts(cx, h, f, leaf)
        except Limit:
            if not lower:
                raise
            bad = [("c14:limit:" + f, "the analysis of %s does not end" % f, cx.where(f))]
            up = set()
        finally:
            cx.shared["deadline"] = end
        if not bad:
            continue
        if up - done:
            lower[f] = bad
            todo |= up
            continue
        for k, m, w in bad + [x for y in lower.values() for x in y]:
            cx.ob(False, k, m, w)
    live(cx, cm, h, way)


def compacts(cx, h, path, leaf):
    """Reasons why a function that compacts leaves references behind."""
    lib = cx.lib
    try:
        key = cx.key(path)
    except Exception:
        return [("c14:function:" + path, "%s is not found" % path, path)]
    w = cx.where(path)
    roots = []
    cover = set()
    for i, ty in enumerate(cx.params(key)):
        d = lib.types.get(ty)
        if d and d["k"] == "ref" and h(d["ty"]):
            roots.append((mk("sym", "a%d" % i), d["ty"]))
            cover |= places(lib, h, d["ty"])[0]
    miss = leaf - cover
    if miss:
        return [("c14:unreached:%s.%s" % x, "%s compacts the clause storage but cannot update the "
                 "references in %s.%s" % ((path,) + x), w) for x in sorted(miss)]
    rule = Upd(cx, h, roots)
    bad = []
    st = St()
    st.preds = rule.preds
    e, a, outs = cx.run(key, st=st, rule=rule, pr=model(cx, rule))
    rule.eng = e
    cx.ob(bool(outs or rule.seen), "c14:returns", "%s does not return" % path, w)
    for s, _ in outs:
        settled(cx, rule, e, s, "when %s returns" % path)
    for k in sorted(rule.seen):
        if k not in rule.bad:
            cx.ob(True, k, "", w)
    bad += [(k, m, w) for k, m in sorted(rule.bad.items())]
    if not rule.seen:
        bad.append(("c14:compacts", "%s is not seen to compact" % path, w))
    return bad


def per_place(cx, rule, eng, s, ptr, ty, M):
    """Whether the references in each place are updated."""
    out = {}

    def walk(x, ty):
        d = adt(cx.lib, ty)
        if d is None or len(d.get("variants", ())) != 1:
            return
        ti = eng.tinfo(ty)
        fs = d["variants"][0]["fields"]
        for i, f in enumerate(fs):
            if not rule.h(f["ty"]):
                continue
            y = x if ti[0] == "newtype" else t.fld(x, i, len(fs))
            fd = adt(cx.lib, f["ty"])
            if fd is None or not fd["path"].startswith("starlit") or fd["path"] == REF or \
                    fd["path"].startswith("starlit::util"):
                ok = rule.updated(s, y, f["ty"], M)
                k = (d["path"], f["name"])
                out[k] = out.get(k, True) and ok
            else:
                walk(y, f["ty"])
    walk(eng.getbase(s, P(ptr)), ty)
    return out


# ---------------------------------------------------------------- locals

def live(cx, cm, h, way):
    lib = cx.lib
    reach = {GC}
    todo = [GC]
    while todo:
        for p in cm.get(todo.pop(), ()):
            if p not in reach:
                reach.add(p)
                todo.append(p)
    cx.note("functions that may compact: %s" % ", ".join(sorted(reach - {GC})))
    n = 0
    for crate in (cx.lib, cx.cli):
        hl = holds(crate, stop=way)
        for k, b in scan.bodies(crate):
            if b.path == GC:
                continue
            sites = [(bi, tm) for rec, tm, sp, bi in scan.calls(b)
                     if rec and scan.callee(rec) in reach or gives(crate, b, tm, reach)]
            if not sites:
                continue
            lv = liveness(b)
            for bi, tm in sites:
                n += 1
                nxt = tm[4]
                if nxt is None:
                    continue
                hot = [i for i in sorted(lv[nxt]) if i != tm[3][0] and hl(b.locals[i][0])]
                cx.ob(not hot, "c14:local:" + b.path, "%s keeps %s, which can hold a clause "
                      "reference, across a call that may compact" % (
                          b.path, ", ".join(b.locals[i][1] or "a temporary" for i in hot)), b.path)
    cx.ob(n > 0, "c14:sites", "no call that may compact is found")


def gives(crate, b, tm, reach):
    """Whether a call is given a closure that may compact."""
    for o in tm[2]:
        ty = b.locals[o[1][0]][0] if o[0] in ("c", "m") else None
        d = crate.types.get(ty) or {}
        if d.get("k") == "closure" and scan.base(b.path) in reach:
            return True
    return False


def liveness(b):
    """Locals used after the start of each block (drops are no use)."""
    from ..facts import succs

    class One(object):
        pass

    def effects(bl):
        one = One()
        one.blocks = [bl]
        read, wrote = set(), set()
        for pl, use, sp in scan.places(one):
            if use == "drop":
                continue
            if use == "write" and len(pl) == 1:
                wrote.add(pl[0])
            else:
                read.add(pl[0])
            read.update(e[1] for e in pl[1:] if e[0] == "i")
        return read, wrote
    use, kill = [], []
    for bl in b.blocks:
        u, k = set(), set()
        parts = [{"s": [s], "t": ["goto", 0], "sp": None} for s in bl["s"]]
        parts.append({"s": [], "t": bl["t"], "sp": bl["sp"]})
        for p in parts:
            r, w = effects(p)
            u |= r - k
            k |= w
        if bl["t"][0] == "return" and 0 not in k:
            u.add(0)
        use.append(u)
        kill.append(k)
    live = [set() for _ in b.blocks]
    ch = True
    while ch:
        ch = False
        for bi in reversed(range(len(b.blocks))):
            o = set()
            for y in succs(b.blocks[bi]["t"]):
                o |= live[y]
            n = use[bi] | (o - kill[bi])
            if n != live[bi]:
                live[bi] = n
                ch = True
    return live
