"""Loads the compiler facts of a tree and offers control-flow helpers on MIR bodies."""
import json, re
import os


class Body(object):
    __slots__ = ("key", "path", "argc", "locals", "blocks", "names", "span", "spread", "kind",
                 "_succ", "_rpo", "_loops", "_live", "_taken", "_rpoidx")

    def __init__(self, key, d):
        self.key = key
        self.path = d["path"]
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.blocks = d["blocks"]
        self.names = d.get("names")
        self.span = d.get("span")
        self.spread = d.get("spread")
        self.kind = d.get("kind")
        self._succ = self._rpo = self._loops = self._live = self._taken = None

    def succ(self, b):
        return succs(self.blocks[b]["t"])

    @property
    def rpo(self):
        if self._rpo is None:
            seen, post = set(), []
            stack = [(0, iter(self.succ(0)))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succ(s))))
                        break
                else:
                    stack.pop()
                    post.append(b)
            self._rpo = post[::-1]
            self._rpoidx = {b: i for i, b in enumerate(self._rpo)}
        return self._rpo

    @property
    def rpoidx(self):
        self.rpo
        return self._rpoidx

    @property
    def loops(self):
        """head -> set of blocks of the natural loop."""
        if self._loops is None:
            rpo = self.rpo
            idx = self.rpoidx
            preds = {b: [] for b in rpo}
            for b in rpo:
                for s in self.succ(b):
                    preds[s].append(b)
            # dominators
            dom = {rpo[0]: rpo[0]}
            changed = True
            while changed:
                changed = False
                for b in rpo[1:]:
                    ps = [p for p in preds[b] if p in dom]
                    n = ps[0]
                    for p in ps[1:]:
                        x, y = n, p
                        while x != y:
                            while idx[x] > idx[y]:
                                x = dom[x]
                            while idx[y] > idx[x]:
                                y = dom[y]
                        n = x
                    if dom.get(b) != n:
                        dom[b] = n
                        changed = True

            def dominates(a, b):
                while True:
                    if a == b:
                        return True
                    if b == rpo[0]:
                        return False
                    b = dom[b]
            loops = {}
            for b in rpo:
                for s in self.succ(b):
                    if idx[s] <= idx[b]:
                        if not dominates(s, b):
                            raise ValueError("irreducible control flow in " + self.path)
                        body = loops.setdefault(s, {s})
                        stack = [b]
                        while stack:
                            x = stack.pop()
                            if x in body:
                                continue
                            body.add(x)
                            stack.extend(preds[x])
            self._loops = loops
        return self._loops

    @property
    def taken(self):
        """Locals whose address is taken."""
        if self._taken is None:
            r = set()
            for b in self.blocks:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] in ("ref", "reborrow", "raw"):
                        p = s[2][2]
                        if not any(e[0] == "d" for e in p[1:]):
                            r.add(p[0])
            self._taken = r
        return self._taken

    @property
    def live(self):
        """Locals live on entry of each block (without the address-taken ones)."""
        if self._live is None:
            use, deff = {}, {}
            for i, b in enumerate(self.blocks):
                u, d = set(), set()

                def rd(l):
                    if l not in d:
                        u.add(l)

                def place_read(p):
                    rd(p[0])
                    for e in p[1:]:
                        if e[0] == "i":
                            rd(e[1])

                def op(o):
                    if o[0] in ("c", "m"):
                        place_read(o[1])

                def rv(r):
                    k = r[0]
                    if k in ("use", "repeat"):
                        op(r[1])
                    elif k in ("ref", "reborrow", "raw"):
                        place_read(r[2])
                    elif k == "cast":
                        op(r[2])
                    elif k == "bin":
                        op(r[2])
                        op(r[3])
                    elif k == "un":
                        op(r[2])
                    elif k == "discr":
                        place_read(r[1])
                    elif k == "agg":
                        for x in r[2]:
                            op(x)

                def wr(p):
                    if len(p) == 1:
                        d.add(p[0])
                    else:
                        place_read(p)
                for s in b["s"]:
                    if s[0] == "=":
                        rv(s[2])
                        wr(s[1])
                    elif s[0] == "setd":
                        place_read(s[1])
                    elif s[0] == "assume":
                        op(s[1])
                    elif s[0] == "copy_nonoverlapping":
                        for x in s[1:4]:
                            op(x)
                t = b["t"]
                if t[0] == "switch":
                    op(t[1])
                elif t[0] == "drop":
                    place_read(t[1])
                elif t[0] == "call":
                    op(t[1])
                    for x in t[2]:
                        op(x)
                    wr(t[3])
                elif t[0] == "assert":
                    op(t[1])
                elif t[0] == "return":
                    rd(0)
                use[i], deff[i] = u, d
            live = {i: set() for i in range(len(self.blocks))}
            changed = True
            while changed:
                changed = False
                for i in range(len(self.blocks) - 1, -1, -1):
                    out = set()
                    for s in self.succ(i):
                        out |= live[s]
                    n = use[i] | (out - deff[i])
                    if n != live[i]:
                        live[i] = n
                        changed = True
            self._live = live
        return self._live


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        r = []
        for x in [b for _, b in t[3]] + [t[4]]:
            if x is not None and x not in r:
                r.append(x)
        return r
    if k == "drop":
        return [t[3]]
    if k == "call":
        return [] if t[4] is None else [t[4]]
    if k == "assert":
        return [t[3]]
    return []


class Crate(object):
    def __init__(self, d):
        self.d = d
        self.types = d["types"]
        self.name = d["crate"]
        self.raw = d["bodies"]
        self._b = {}
        self.fns = {f["path"]: f for f in d["fns"]}
        self.debug = d.get("debug_assertions")
        self.by_path = {}
        for k, b in self.raw.items():
            if "blocks" in b:
                self.by_path.setdefault(b["path"], []).append(k)

    def body(self, key):
        b = self._b.get(key)
        if b is None:
            r = self.raw.get(key)
            if r is None or "blocks" not in r:
                return None
            b = self._b[key] = Body(key, r)
        return b

    def find(self, path, pred=None):
        """The keys of all instances of a function."""
        ks = self.by_path.get(path, [])
        return [k for k in ks if pred is None or pred(k)]

    def ty(self, s):
        return self.types.get(s) or {"k": "other"}


def known():
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")) as f:
        return json.load(f)


def canonical(types):
    """Gives fields that were renamed the names that the rules know, by type and order."""
    base = known()["types"]
    for s, d in types.items():
        k = base.get(s)
        if k is None or d["k"] != "adt":
            continue
        for v, (vname, fs) in zip(d["variants"], k):
            have = {f["name"] for f in v["fields"]}
            names = {n for n, _ in fs}
            lost = [(n, ty) for n, ty in fs if n not in have]
            new = [f for f in v["fields"] if f["name"] not in names]
            for ty in sorted({ty for _, ty in lost}):
                a = [n for n, y in lost if y == ty]
                b = [f for f in new if f["ty"] == ty]
                if len(a) == len(b):
                    for n, f in zip(a, b):
                        f["name"] = n


def renamed(types, fns):
    """Types and functions that were renamed or moved: {path: known path}.  A type is recognised by
    its name, or by its module and the types of its fields, a function by its name, or, if it is
    public, by its place and its signature."""
    out = renamed_types(types)
    old = known()["fns"]

    def plain(p):
        for q in out:
            p = re.sub(r"(?<![\w:])%s(?!\w)" % re.escape(q), out[q], p)
        return p
    new = {plain(f["path"]): [f["exported"], [plain(x) for x in f["inputs"]], plain(f["output"])]
           for f in fns if "impl_trait" not in f and "in_trait" not in f}
    lost = {p: v for p, v in old.items() if p not in new}
    found = {p: v for p, v in new.items() if p not in old}
    for p, v in lost.items():
        where, last = p.rsplit("::", 1)
        hit = [q for q in found if q.rsplit("::", 1)[1] == last]
        if not hit and v[0]:
            hit = [q for q, w in found.items() if w == v and q.rsplit("::", 1)[0] == where]
            if len([q for q, w in lost.items() if w == v and q.rsplit("::", 1)[0] == where]) > 1:
                hit = []
        if len(hit) == 1 and hit[0] not in out:
            out[hit[0]] = p
    return out


def renamed_types(types):
    old = {}
    for s, vs in known()["types"].items():
        old.setdefault(head(s), [[ty for _, ty in fs] for _, fs in vs])
    new = {}
    for s, d in types.items():
        if d["k"] == "adt" and d["path"].startswith("starlit::"):
            new.setdefault(d["path"], [[f["ty"] for f in v["fields"]] for v in d["variants"]])
    lost = {p: v for p, v in old.items() if p not in new}
    found = {p: v for p, v in new.items() if p not in old}
    out = {}
    for p, v in lost.items():
        last = p.rsplit("::", 1)[1]
        hit = [q for q in found if q.rsplit("::", 1)[1] == last]
        if not hit:
            hit = [q for q, w in found.items() if q.rsplit("::", 1)[0] == p.rsplit("::", 1)[0]
                   and str(w).replace(q, p) == str(v)]
            if len([q for q, w in lost.items() if str(w) == str(v)]) > 1:
                hit = []
        if len(hit) == 1 and hit[0] not in out:
            out[hit[0]] = p
    return out


def head(s):
    """Path of a type without its arguments."""
    return s.split("<")[0]


RENAMED = {}


def load(d, name="starlit.json"):
    with open(os.path.join(d, name)) as f:
        text = f.read()
    js = json.loads(text)
    if name.startswith("starlit") and name != "starlit_macros.json":
        m = RENAMED.get(d)
        if m is None:
            lib = js
            if name != "starlit.json":
                with open(os.path.join(d, "starlit.json")) as f:
                    lib = json.load(f)
            m = RENAMED[d] = renamed(lib["types"], lib["fns"])
        if m:
            for q in m:
                text = re.sub(r"(?<![\w:])%s(?!\w)" % re.escape(q), m[q], text)
            js = json.loads(text)
            for f in js["fns"]:
                if "impl_trait" not in f and "in_trait" not in f:
                    f["name"] = f["path"].rsplit("::", 1)[1]
    c = Crate(js)
    if name == "starlit.json":
        canonical(c.types)
    return c
