"""Queries over the extracted MIR: places, field accesses, calls and the call graph."""


def rv_operands(r):
    """Operands of an rvalue."""
    out = []

    def rec(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list):
                out.append(x)
                return
            if len(x) == 2 and x[0] == "k":
                out.append(x)
                return
            for y in x:
                rec(y)
    rec(r)
    return out


def places(body):
    """Yields (place, use, span): use is write/read/move/ref/refmut/drop."""
    for bi, bl in enumerate(body.blocks):
        for s in bl["s"]:
            if s[0] == "=":
                sp = s[3] if len(s) > 3 else None
                yield s[1], "write", sp
                r = s[2]
                if r[0] in ("ref", "reborrow", "raw"):
                    m = "refmut" if r[1] in ("mut", "twophase", "unique") or "mut" in str(r[1]) \
                        else "ref"
                    yield r[2], m, sp
                elif r[0] in ("discr", "len", "copyderef") and len(r) > 1 \
                        and isinstance(r[1], list):
                    yield r[1], "read", sp
                else:
                    for o in rv_operands(r):
                        if o[0] in ("c", "m"):
                            yield o[1], "read" if o[0] == "c" else "move", sp
            elif s[0] == "setd":
                yield s[1], "write", None
            elif s[0] in ("assume", "copy_nonoverlapping"):
                for o in rv_operands(s[1:]):
                    if o[0] in ("c", "m"):
                        yield o[1], "read", None
        t = bl["t"]
        sp = bl["sp"]
        if t[0] == "call":
            for o in t[2]:
                if o[0] in ("c", "m"):
                    yield o[1], "read" if o[0] == "c" else "move", sp
            if t[1][0] in ("c", "m"):
                yield t[1][1], "read", sp
            yield t[3], "write", sp
        elif t[0] == "switch":
            if t[1][0] in ("c", "m"):
                yield t[1][1], "read", sp
        elif t[0] == "drop":
            yield t[1], "drop", sp
        elif t[0] == "assert":
            if t[1][0] in ("c", "m"):
                yield t[1][1], "read", sp


def peel(crate, ty):
    d = crate.types.get(ty) or {"k": "other"}
    while d["k"] in ("ref", "ptr"):
        ty = d["ty"]
        d = crate.types.get(ty) or {"k": "other"}
    return ty, d


def fields_of(crate, body, place):
    """[(adt path, field index, is the last element)] met along a place."""
    ty = body.locals[place[0]][0]
    out = []
    n = len(place) - 1
    for k, e in enumerate(place[1:]):
        d = crate.types.get(ty) or {"k": "other"}
        if e[0] == "d":
            ty = d.get("ty", "?") if d["k"] in ("ref", "ptr") else (d.get("args") or ["?"])[0]
        elif e[0] == "f":
            if d["k"] == "adt":
                out.append((d["path"], e[1], k == n - 1))
            elif d["k"] == "closure":
                out.append(("closure " + d["path"], e[1], k == n - 1))
            ty = e[2]
        elif e[0] in ("i", "ci"):
            ty = d.get("ty", "?")
    return out


def calls(body):
    """Yields (callee record or None, terminator, span, block)."""
    for bi, bl in enumerate(body.blocks):
        t = bl["t"]
        if t[0] == "call":
            f = t[1]
            rec = None
            if f[0] == "k" and "fn" in f[1]:
                rec = f[1]["fn"]
            yield rec, t, bl["sp"], bi


def callee(rec):
    return rec.get("rpath") or rec["path"]


def bodies(crate, local=True):
    for k in crate.raw:
        b = crate.body(k)
        if b is not None and (not local or is_local(b)):
            yield k, b


def is_local(b):
    return b.path.startswith("starlit") or b.path.startswith("<starlit") or " as starlit" in b.path


def fname(path):
    return path.rsplit("::", 1)[-1]


def line(sp):
    return "%s:%s" % (sp[0], sp[1]) if sp else "?"


def base(path):
    """Path without closure parts."""
    return path.split("::{closure")[0]


class Callers(dict):
    fns = {}

    def dead(self, p):
        """Whether a function that nobody calls cannot be called from outside either."""
        f = self.fns.get(p)
        return bool(f) and not (f.get("exported") or f.get("pub") or f.get("impl_trait")
                                or f.get("name") == "main")


def callmap(crate):
    """callee path -> set of calling functions (closures count as their function); calls and
    mentions of function values."""
    out = Callers()
    out.fns = crate.fns
    for k, b in bodies(crate):
        for rec, t, sp, bi in calls(b):
            if rec:
                out.setdefault(callee(rec), set()).add(base(b.path))
                if callee(rec) != rec["path"]:
                    out.setdefault(rec["path"], set()).add(base(b.path))
        for rec in fnvalues(b):
            out.setdefault(callee(rec), set()).add(base(b.path))
    return out


def fnvalues(body):
    """Functions mentioned as values."""
    for bi, bl in enumerate(body.blocks):
        xs = []
        for s in bl["s"]:
            if s[0] == "=":
                xs += rv_operands(s[2])
        t = bl["t"]
        if t[0] == "call":
            xs += t[2]
        for o in xs:
            if isinstance(o, list) and o and o[0] == "k" and isinstance(o[1], dict) \
                    and "fn" in o[1]:
                yield o[1]["fn"]


def only_from(cm, path, allowed):
    """Whether every chain of callers of a function passes through an allowed function."""
    todo, seen, bad = [path], set(), set()
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        if p in allowed:
            continue
        cs = cm.get(p, set()) - {p}
        if not cs and not (p != path and getattr(cm, "dead", lambda x: False)(p)):
            bad.add(p)
        todo.extend(cs)
    return bad


ANALYZE = "starlit::conflict_analysis::analyze_conflict"
CA = "starlit::conflict_analysis::ConflictAnalysis"


def stages(cx):
    """Functions called by analyze_conflict that work on the analysis: [(path, parameter types)]."""
    out = []
    for k in cx.lib.find(ANALYZE):
        b = cx.lib.body(k)
        if b is None:
            continue
        for rec, tm, sp, _ in calls(b):
            p = callee(rec) if rec else None
            if not p or not p.startswith("starlit::"):
                continue
            for k2 in cx.lib.find(p)[:1]:
                b2 = cx.lib.body(k2)
                if b2 is None:
                    continue
                ps = [b2.locals[i + 1][0] for i in range(b2.argc)]
                if any(x.endswith(CA) for x in ps) and (p, ps) not in out:
                    out.append((p, ps))
    return out


def deriving(cx):
    """The function that derives a clause from a conflict."""
    for p, ps in stages(cx):
        if any(x.endswith("ConflictClause") for x in ps):
            return p
    return "starlit::conflict_analysis::derive_1uip_clause"


def learning(cx, prims):
    """The function that stores the derived clause and assigns its literal."""
    def reaches(p, seen):
        if p in prims:
            return True
        if p in seen:
            return False
        seen.add(p)
        for k in cx.lib.find(p)[:1]:
            b = cx.lib.body(k)
            if b is not None and any(rec and reaches(callee(rec), seen)
                                     for rec, tm, sp, _ in calls(b)):
                return True
        return False
    for p, ps in stages(cx):
        if p != deriving(cx) and reaches(p, set()):
            return p
    return "starlit::conflict_analysis::learn_and_assign"
