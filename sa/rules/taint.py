"""Information flow over the MIR of the whole program.

A flow-insensitive, field-based, interprocedural analysis: values, structure fields (one cell per
field of a structure type) and results of calls carry a mark; marks flow through assignments,
aggregates, references, calls and returns, and through branches (everything assigned and called
between a branch on a marked value and the point where its paths meet again)."""
from . import scan
from ..facts import succs


class Flow(object):
    """source(crate, body, callee path, record, terminator) -> the result of the call is marked
    field(adt, index) -> the field is marked from the start
    exempt(body) -> branches on marked values have no further effect in this body
    sink(path) -> calls that only write log output"""

    def __init__(self, crates, source=None, field=None, exempt=None, sink=None, pure=None,
                 rvalue=None):
        self.crates = crates
        self.source = source or (lambda *a: False)
        self.exempt = exempt or (lambda b: False)
        self.sink = sink or (lambda p, c, b, t: False)
        self.rvalue = rvalue or (lambda c, b, r: False)
        self.bodies = {}
        for c in crates:
            for k, b in scan.bodies(c):
                self.bodies.setdefault(k, (c, b))
        self.loc = {}       # (key, local[, field]) -> why
        self.fld = {}       # (adt, field) -> why
        self.ret = set()    # keys
        self.pts = {}       # (key, local) -> set of ("l", key, local) / ("f", adt, idx)
        self.effects = {}   # (key, block) -> description
        self.closures = {}
        for c in crates:
            for a, k in c.types.items():
                if k["k"] == "adt" and field:
                    for v in k.get("variants", ()):
                        for i, f in enumerate(v["fields"]):
                            if field(k["path"], i, f["name"]):
                                self.fld.setdefault((k["path"], i), "%s.%s" % (k["path"], f["name"]))
        self._pd = {}
        self._fields = {}
        self.points()
        self.solve()

    # ---------------------------------------------------------------- helpers
    def fields_of(self, key, place):
        x = (key, str(place))
        if x not in self._fields:
            c, b = self.bodies[key]
            self._fields[x] = scan.fields_of(c, b, place)
        return self._fields[x]

    def target(self, rec):
        if rec is None:
            return None
        k = rec.get("key")
        if k in self.bodies:
            return k
        p = scan.callee(rec)
        return p if p in self.bodies else None

    def closure_of(self, crate, ty):
        """Body key of a closure type."""
        _, d = scan.peel(crate, ty)
        if d["k"] != "closure":
            return None
        return self.closures.get(ty.lstrip("&").replace("mut ", "").strip())

    def points(self):
        for key, (c, b) in self.bodies.items():
            for bl in b.blocks:
                for s in bl["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                        self.closures[s[2][1][1]] = s[2][1][2]
        changed = True
        while changed:
            changed = False
            for key, (c, b) in self.bodies.items():
                for bl in b.blocks:
                    for s in bl["s"]:
                        if s[0] != "=":
                            continue
                        r = s[2]
                        got = set()
                        if r[0] in ("ref", "raw", "reborrow"):
                            got |= self.cells(key, r[2])
                        else:
                            for o in scan.rv_operands(r):
                                if o[0] in ("c", "m"):
                                    got |= self.held(key, o[1])
                        changed |= self.hold(key, s[1], got)
                    t = bl["t"]
                    if t[0] != "call":
                        continue
                    rec = t[1][1].get("fn") if t[1][0] == "k" else None
                    k2 = self.target(rec)
                    allh = set()
                    for i, o in enumerate(t[2]):
                        if o[0] not in ("c", "m"):
                            continue
                        h = self.held(key, o[1])
                        allh |= h
                        if k2 is not None:
                            changed |= self.hold(k2, [i + 1], h)
                    if k2 is not None:
                        allh = self.pts.get((k2, 0), set())
                    ty = b.locals[t[3][0]][0]
                    if allh and ("&" in ty or "*" in ty or "Iter" in ty or "<'" in ty):
                        changed |= self.hold(key, t[3], allh)

    def cells(self, key, place):
        """What a reference to this place points to."""
        fs = self.fields_of(key, place)
        if fs:
            return {("f", fs[-1][0], fs[-1][1])} if not fs[-1][0].startswith("closure") \
                else set(self.pts.get((key, place[0]), ()))
        if any(e[0] == "d" for e in place[1:]):
            return set(self.pts.get((key, place[0]), ()))
        return {("l", key, place[0])} | set(self.pts.get((key, place[0]), ()))

    def held(self, key, place):
        """What a value at this place may point to."""
        out = set(self.pts.get((key, place[0]), ()))
        return out

    def hold(self, key, place, got):
        cur = self.pts.setdefault((key, place[0]), set())
        n = len(cur)
        cur |= got
        return len(cur) != n

    # ---------------------------------------------------------------- marks
    def marked(self, key, place):
        """Why a place is marked, or None."""
        b = place[0]
        w = self.loc.get((key, b, None))
        if w:
            return w
        first = next((e for e in place[1:] if e[0] != "d"), None)
        if first is not None and first[0] == "f":
            w = self.loc.get((key, b, first[1]))
            if w:
                return w
        for e in place[1:]:
            if e[0] == "i":
                w = self.loc.get((key, e[1], None))
                if w:
                    return w
        fs = self.fields_of(key, place)
        for a, i, _ in fs:
            if (a, i) in self.fld:
                return self.fld[a, i]
        if any(e[0] == "d" for e in place[1:]) and not fs:
            for q in self.pts.get((key, b), ()):
                w = self.fld.get(q[1:]) if q[0] == "f" else self.loc.get(q[1:] + (None,))
                if w:
                    return w
        return None

    def operand(self, key, o):
        if o[0] in ("c", "m"):
            return self.marked(key, o[1])
        return None

    def mark(self, key, place, why):
        fs = [x for x in self.fields_of(key, place) if not x[0].startswith("closure")]
        if fs:
            return self._put(self.fld, fs[-1][:2], why)
        if any(e[0] == "d" for e in place[1:]):
            ch = False
            ps = self.pts.get((key, place[0]), ())
            for q in ps:
                ch |= self.point(q, why)
            return ch | (False if ps else self._put(self.loc, (key, place[0], None), why))
        f = place[1][1] if len(place) > 1 and place[1][0] == "f" else None
        return self._put(self.loc, (key, place[0], f), why)

    def point(self, q, why):
        return self._put(self.fld, q[1:], why) if q[0] == "f" \
            else self._put(self.loc, q[1:] + (None,), why)

    def _put(self, d, k, why):
        if k in d:
            return False
        d[k] = why
        return True

    def solve(self):
        self.changed = True
        while self.changed:
            self.changed = False
            for key, (c, b) in self.bodies.items():
                self.body(key, c, b)

    def body(self, key, c, b):
        ch = False
        implicit = self.regions(key, b)
        for bi, bl in enumerate(b.blocks):
            imp = implicit.get(bi)
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                r = s[2]
                w = imp
                if self.rvalue(c, b, r):
                    w = w or "%s at %s" % (b.path, scan.line(s[3] if len(s) > 3 else None))
                if r[0] == "agg":
                    kind = r[1][0]
                    for i, o in enumerate(r[2]):
                        x = self.operand(key, o)
                        if not x:
                            continue
                        if kind == "adt":
                            d = c.types.get(r[1][1]) or {}
                            if str(d.get("path", "")).startswith("starlit"):
                                ch |= self._put(self.fld, (d["path"], i), x)
                            else:
                                ch |= self.mark(key, s[1], x)
                        elif kind == "closure":
                            ch |= self._put(self.loc, (key, s[1][0], i), x)
                            k2 = r[1][2]
                            if k2 in self.bodies:
                                ch |= self._put(self.loc, (k2, 1, i), x)
                        elif len(s[1]) == 1 and kind == "tuple":
                            ch |= self._put(self.loc, (key, s[1][0], i), x)
                        else:
                            ch |= self.mark(key, s[1], x)
                elif r[0] in ("ref", "raw", "reborrow", "discr", "len", "copyderef"):
                    pl = r[2] if r[0] in ("ref", "raw", "reborrow") else r[1]
                    if isinstance(pl, list) and pl and isinstance(pl[0], int):
                        w = w or self.marked(key, pl)
                        ch |= self.parts(key, s[1], pl)
                else:
                    for o in scan.rv_operands(r):
                        w = w or self.operand(key, o)
                        if o[0] in ("c", "m"):
                            ch |= self.parts(key, s[1], o[1])
                if w:
                    ch |= self.mark(key, s[1], w)
            t = bl["t"]
            if t[0] == "call":
                ch |= self.call(key, c, b, bi, t, imp)
            elif t[0] == "return":
                if any((key, 0, f) in self.loc for f in (None, 0, 1, 2, 3)) and key not in self.ret:
                    self.ret.add(key)
                    ch = True
        self.changed |= ch

    def parts(self, key, dst, src):
        """Marks of single components go along with the whole."""
        ch = False
        if len(dst) != 1 or any(e[0] != "d" for e in src[1:]):
            return ch
        for f in range(8):
            w = self.loc.get((key, src[0], f))
            if w:
                ch |= self._put(self.loc, (key, dst[0], f), w)
        return ch

    def why_ret(self, k):
        for f in (None, 0, 1, 2, 3):
            if (k, 0, f) in self.loc:
                return self.loc[k, 0, f]

    def call(self, key, c, b, bi, t, imp):
        ch = False
        rec = t[1][1].get("fn") if t[1][0] == "k" else None
        p = scan.callee(rec) if rec else "?"
        at = "%s at %s" % (b.path, scan.line(b.blocks[bi]["sp"]))
        k2 = self.target(rec)
        ws = [self.operand(key, o) for o in t[2]]
        if rec is None:
            ws.append(self.operand(key, t[1]))
        w = next((x for x in ws if x), None)
        if self.sink(p, c, b, t):
            return ch
        if rec and self.source(c, b, p, rec, t):
            ch |= self.mark(key, t[3], "%s in %s" % (p, at))
        if imp:
            ch |= self._put(self.effects, (key, bi), (p, imp, at, k2))
            ch |= self.mark(key, t[3], imp)
        if k2 is not None:
            for i, x in enumerate(ws):
                if x and i < len(self.bodies[k2][1].locals):
                    ch |= self._put(self.loc, (k2, i + 1, None), x)
                o = t[2][i] if i < len(t[2]) else None
                if o and o[0] in ("c", "m") and len(o[1]) == 1:
                    for f in range(8):
                        y = self.loc.get((key, o[1][0], f))
                        if y:
                            ch |= self._put(self.loc, (k2, i + 1, f), y)
            if k2 in self.ret:
                ch |= self.mark(key, t[3], self.why_ret(k2))
            return ch
        # a function without body
        cl = []
        for o in t[2]:
            if o[0] in ("c", "m"):
                ty, d = scan.peel(c, b.locals[o[1][0]][0])
                if d["k"] == "closure" and self.closures.get(ty) in self.bodies:
                    cl.append(self.closures[ty])
        for k3 in cl:
            if k3 in self.ret:
                w = w or self.why_ret(k3)
        if w:
            ch |= self.mark(key, t[3], w)
            for k3 in cl:
                n = self.bodies[k3][1].argc
                for i in range(2, n + 1):
                    ch |= self._put(self.loc, (k3, i, None), w)
            for o, x in zip(t[2], ws):
                if o[0] in ("c", "m") and self.mutable(c, b.locals[o[1][0]][0]):
                    for q in self.held(key, o[1]):
                        ch |= self.point(q, w)
        return ch

    def mutable(self, c, ty):
        d = c.types.get(ty) or {}
        return d.get("k") in ("ref", "ptr") and ty.startswith(("&mut", "*mut")) or "&'" in ty and \
            " mut " in ty.split("<")[0]

    # ---------------------------------------------------------------- branches
    def pdom(self, key, b):
        if key in self._pd:
            return self._pd[key]
        n = len(b.blocks)
        ex = n
        succ = {i: [x for x in succs(b.blocks[i]["t"])] for i in range(n)}
        for i in range(n):
            if not succ[i]:
                tm = b.blocks[i]["t"]
                leaves = tm[0] == "return" or tm[0] == "call" and "std::process::" in str(tm[1])
                succ[i] = [ex] if leaves else []
        full = set(range(n + 1))
        pd = {i: full for i in range(n)}
        pd[ex] = {ex}
        order = list(reversed(b.rpo))
        ch = True
        while ch:
            ch = False
            for i in order:
                ss = [pd[x] for x in succ[i]]
                new = ({i} | set.intersection(*ss)) if ss else full
                if new != pd[i]:
                    pd[i] = new
                    ch = True
        self._pd[key] = (pd, succ)
        return self._pd[key]

    def regions(self, key, b):
        """block -> why it is only run depending on a marked value."""
        out = {}
        if self.exempt(b):
            return out
        for bi, bl in enumerate(b.blocks):
            t = bl["t"]
            if t[0] != "switch":
                continue
            w = self.operand(key, t[1])
            if not w:
                continue
            pd, succ = self.pdom(key, b)
            after = pd[bi] - {bi}
            todo = [x for x in succ[bi]]
            seen = set()
            while todo:
                x = todo.pop()
                if x in seen or x in after or x == len(b.blocks):
                    continue
                seen.add(x)
                todo.extend(succ[x])
            for x in seen:
                out.setdefault(x, w)
        return out
