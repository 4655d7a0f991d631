"""Path-sensitive abstract interpreter for MIR.

Every function reachable from a root is analysed from the compiler's MIR.  The control-flow paths of
acyclic code are kept apart, loops are replaced by inductive invariants (candidate facts are dropped
until the remaining ones are preserved by the loop body), calls are either described by a contract,
by a model of the standard library, analysed in place, or treated as unknown.
"""
import itertools

from . import terms as t
from .terms import T, I, mk, ZERO, ONE, TRUE, FALSE, UNIT, VNIL
from .state import State

ATOMIC = {"std::vec::Vec", "std::string::String", "std::slice::Iter", "std::slice::IterMut",
          "std::vec::Drain", "std::vec::IntoIter", "std::fmt::Arguments", "std::cell::RefCell"}


class Limit(Exception):
    """The analysis could not be completed."""


class Frame(object):
    __slots__ = ("body", "ctx", "parent", "key", "crate", "depth", "rets", "block")

    def __init__(self, body, ctx, parent, key, crate):
        self.body = body
        self.ctx = ctx
        self.parent = parent
        self.key = key
        self.crate = crate
        self.depth = 0 if parent is None else parent.depth + 1

    def chain(self):
        f = self
        while f is not None:
            yield f
            f = f.parent


class Call(object):
    """A call site as seen by rules and models."""
    __slots__ = ("fn", "path", "key", "args", "argtys", "destty", "span", "fr", "block", "site",
                 "ops")

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class Head(object):
    __slots__ = ("mem", "cands", "alls", "ms", "entry")


class Engine(object):
    def __init__(self, crates, rule=None, exact=False):
        self.kmem = {}
        self.crates = crates if isinstance(crates, list) else [crates]
        self.rule = rule
        self.exact = exact
        self.generics = {}
        self.ctxs = {}
        self.ctxinfo = []
        self.reports = {}    # violations by key, shared with the check
        self.notes = set()
        self.disc_types = {}
        self.fnrecs = {}
        self.steps = 0
        self.max_steps = 400000
        self.analysed = set()
        self.callsites = set()
        self.opaque_calls = set()
        self.loops_done = set()
        self.npaths = 0
        self._tc = {}
        self.prims = {}
        self.synth = {}
        self.merge_limit = 12
        self.join_limit = 80
        self.keep_limit = 3
        self.deadline = None
        self.debug = False
        from . import models
        self.models = models

    # ------------------------------------------------------------ types
    def ty(self, s):
        for c in self.crates:
            d = c.types.get(s)
            if d is not None:
                return d
        return {"k": "other"}

    def tinfo(self, s):
        """(kind, ...) digest of a type."""
        r = self._tc.get(s)
        if r is None:
            r = self._tc[s] = self._tinfo(s)
        return r

    def _zst(self, s):
        d = self.ty(s)
        if d.get("size") is not None:
            return d["size"] == 0
        if d["k"] == "tuple":
            return not d["tys"]
        return d["k"] in ("fndef",)

    def _tinfo(self, s):
        d = self.ty(s)
        k = d["k"]
        if k == "adt":
            if d["path"] in ATOMIC:
                return ("atomic", d["path"])
            if d["adt"] in ("struct", "union"):
                fs = [f["ty"] for f in d["variants"][0]["fields"]]
                nz = [i for i, f in enumerate(fs) if not self._zst(f)]
                if len(nz) == 1:
                    return ("newtype", nz[0], fs)
                return ("struct", fs)
            if d["path"] == "std::cmp::Ordering":
                return ("enum", [[], [], []], [-1, 0, 1])
            return ("enum", [[f["ty"] for f in v["fields"]] for v in d["variants"]],
                    [int(v["discr"]) if v["discr"] is not None else i
                     for i, v in enumerate(d["variants"])])
        if k == "tuple":
            return ("struct", d["tys"])
        if k == "closure":
            return ("struct", d["upvars"])
        if k in ("ref", "ptr"):
            return ("ref", d["ty"])
        if k in ("slice", "array"):
            return ("seq", d["ty"], d.get("len"))
        if k == "int":
            return ("int", d.get("signed", False), d.get("size") or 8)
        if k == "bool":
            return ("bool",)
        return ("other",)

    def body(self, key):
        b = self.synth.get(key)
        if b is not None:
            return b, self.crates[0]
        for c in self.crates:
            b = c.body(key)
            if b is not None:
                return b, c
        return None, None

    # ------------------------------------------------------------ memory
    def default(self, st, base):
        k = base[0]
        if k == "P":
            return mk("pt", base[1])
        if k == "L":
            return mk("undef", base[1], base[2])
        if k == "G":
            return mk("ghost0", base[1])
        if k == "K":
            v = self.kmem.get(base)
            if v is None and base[1][0] == "from_ref":
                v = mk("arr", base[1][1])
            return v if v is not None else mk("pt", mk("kmem", base[1]))
        return mk("undef", str(base))

    def getbase(self, st, base):
        v = st.mem.get(base)
        if v is None:
            v = self.default(st, base)
        return v

    def rd(self, st, base, path=()):
        v = st.mem.get(base)
        if v is None:
            v = self.default(st, base)
        for e in path:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        k = e[0]
        if k == "f":
            return t.fld(v, e[1], e[2])
        if k == "x":
            return t.sel(v, e[1], st.decide)
        if k == "v":
            return t.vfld(v, e[1], e[2])
        if k == "s":
            return self.slice(st, v, e[1], e[2])
        raise Limit("projection " + str(e))

    def slice(self, st, v, lo, hi):
        n = t.length(v)
        if lo is ZERO and hi is not n and st.same(hi, n):
            return v
        return t.subarr(v, lo, hi)

    def upd(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        k = e[0]
        rest = path[1:]
        if k == "f":
            i, n = e[1], e[2]
            return t.st(*[self.upd(st, t.fld(v, j, n), rest, new) if j == i else t.fld(v, j, n)
                          for j in range(n)])
        if k == "v":
            var, i, n = e[1], e[2], e[3]
            return t.en(var, *[self.upd(st, t.vfld(v, var, j), rest, new) if j == i
                               else t.vfld(v, var, j) for j in range(n)])
        if k == "x":
            old = t.sel(v, e[1], st.decide)
            return self.store(st, v, e[1], self.upd(st, old, rest, new))
        if k == "s":
            lo, hi = e[1], e[2]
            if rest and rest[0][0] == "x":
                i = t.add(lo, rest[0][1])
                return self.upd(st, v, (("x", i),) + rest[1:], new)
            cur = self.slice(st, v, lo, hi)
            nw = self.upd(st, cur, rest, new)
            if nw is cur:
                return v
            if lo is ZERO and st.same(hi, t.length(v)):
                return nw
            if nw.op == "arr" and len(nw.args) <= 4 and st.same(t.sub(hi, lo), I(len(nw.args))):
                for k, x in enumerate(nw.args):
                    v = self.store(st, v, t.add(lo, I(k)), x)
                return v
            return mk("splice", v, lo, nw)
        raise Limit("update " + str(e))

    def store(self, st, a, i, v):
        if a.op == "arr" and i.op != "i":
            for n in range(len(a.args)):
                if st.decide(t.eq(i, I(n))) is True:
                    i = I(n)
                    break
        return t.store(a, i, v)

    def addpath(self, path, e):
        if path and path[-1][0] == "s":
            p = path[-1]
            if e[0] == "x":
                return path[:-1] + (("x", t.add(p[1], e[1])),)
            if e[0] == "s":
                return path[:-1] + (("s", t.add(p[1], e[1]), t.add(p[1], e[2])),)
        return path + (e,)

    def deref(self, st, v):
        if v.op == "ref":
            return v.args[0], v.args[1]
        return ("P", v), ()

    def ref(self, base, path=()):
        if base[0] == "P" and not path:
            return base[1]
        return mk("ref", base, path)

    def read(self, st, v):
        b, p = self.deref(st, v)
        return self.rd(st, b, p)

    def write(self, st, v, new, fr=None, span=None):
        b, p = self.deref(st, v)
        self.wr(st, b, p, new, fr, span)

    def wr(self, st, base, path, new, fr=None, span=None):
        if path:
            old = self.getbase(st, base)
            new_full = self.upd(st, old, path, new)
        else:
            new_full = new
        if self.rule is not None and base[0] != "L":
            self.rule.on_write(self, st, base, path, new, fr, span)
        st.mem[base] = new_full

    # ------------------------------------------------------------ places
    def walk(self, st, fr, place):
        """Resolves a place to (base, path, type)."""
        body = fr.body
        l = place[0]
        ty = body.locals[l][0]
        base = ("L", fr.ctx, l)
        path = ()
        variant = None
        for e in place[1:]:
            k = e[0]
            if k == "d":
                v = self.rd(st, base, path)
                ti = self.tinfo(ty)
                raw = self.ty(ty)
                if raw["k"] == "ptr" and self.rule is not None:
                    self.rule.on_raw(self, st, fr, v, raw["ty"])
                if ti[0] == "ref":
                    ty = ti[1]
                elif ti[0] == "newtype":
                    d = self.ty(ty)
                    ty = d["args"][0] if d.get("args") else "?"
                base, path = self.deref(st, v)
                variant = None
            elif k == "f":
                ti = self.tinfo(ty)
                i, fty = e[1], e[2]
                if variant is not None and ti[0] == "enum":
                    path = path + (("v", variant, i, len(ti[1][variant])),)
                elif ti[0] == "newtype":
                    if ti[1] != i:
                        base, path = ("Z",), ()
                elif ti[0] == "struct":
                    path = path + (("f", i, len(ti[1])),)
                else:
                    path = path + (("f", i, i + 1),)
                ty = fty
                variant = None
            elif k == "v":
                variant = e[1]
            elif k == "i":
                idx = self.rd(st, ("L", fr.ctx, e[1]))
                path = self.addpath(path, ("x", idx))
                ty = self.elem(ty)
            elif k == "ci":
                if e[3]:
                    n = t.length(self.rd(st, base, path))
                    idx = t.sub(n, I(e[1]))
                else:
                    idx = I(e[1])
                path = self.addpath(path, ("x", idx))
                ty = self.elem(ty)
            elif k == "ss":
                lo = I(e[1])
                if e[3]:
                    hi = t.sub(t.length(self.rd(st, base, path)), I(e[2]))
                else:
                    hi = I(e[2])
                path = self.addpath(path, ("s", lo, hi))
            else:
                raise Limit("place element " + str(e))
        return base, path, ty

    def elem(self, ty):
        ti = self.tinfo(ty)
        return ti[1] if ti[0] == "seq" else "?"

    def place_val(self, st, fr, place):
        if len(place) == 1:
            v = self.rd(st, ("L", fr.ctx, place[0]))
            ty = fr.body.locals[place[0]][0]
        else:
            base, path, ty = self.walk(st, fr, place)
            if base[0] == "Z":
                return UNIT
            v = self.rd(st, base, path)
        return self.typed(v, ty)

    def typed(self, v, ty):
        if v.op in ("i", "lin", "sgn", "ssym"):
            return v
        ti = self.tinfo(ty)
        if ti[0] == "int" and ti[1] and ty != "isize":
            if v.op in ("disc", "b2i", "and1", "shr", "tr"):
                return v
            return mk("sgn", v)
        return v

    def operand(self, st, fr, o):
        k = o[0]
        if k in ("c", "m"):
            return self.place_val(st, fr, o[1])
        return self.const(st, o[1])

    def const(self, st, c):
        ty = c["ty"]
        f = c.get("fn")
        if f is not None:
            key = f.get("key") or f["path"]
            self.fnrecs[key] = f
            return mk("fnv", key)
        v = c.get("val")
        if v is None:
            if c.get("clo"):
                return UNIT
            g = str(c.get("generic") or "").split("/")[0].split(":")[0]
            if g in self.generics:
                return I(self.generics[g])
            return mk("sym", "const", str(c.get("def") or c.get("generic") or ty))
        if "zst" in v:
            ti = self.tinfo(ty)
            if ti[0] == "enum":
                return t.en(0)
            if ti[0] == "seq":
                return VNIL
            if ti[0] == "struct" and ti[1]:
                return t.st(*[UNIT] * len(ti[1]))
            return UNIT
        if "int" in v:
            return self.constint(int(v["int"]), ty, v.get("size"))
        if "slice" in v:
            hexs = v["slice"].get("hex", "")
            n = int(v.get("meta", len(hexs) // 2))
            data = bytes.fromhex(hexs)
            base = ("K", ("str", hexs))
            if base not in self.kmem:
                if data and n == len(data) and n <= 4096:
                    self.kmem[base] = mk("arr", *[I(x) for x in data])
                elif n == 0:
                    self.kmem[base] = VNIL
            return mk("ref", base, ())
        if "ptr" in v:
            p = v["ptr"]
            hexs = p.get("hex")
            base = ("K", (ty, hexs, str(p.get("rel") or p)))
            ti = self.tinfo(ty)
            if base not in self.kmem and ti[0] == "ref" and hexs is not None and not p.get("rel"):
                x = self.decode(bytes.fromhex(hexs), ti[1])
                if x is not None:
                    self.kmem[base] = x
            return mk("ref", base, ())
        if "mem" in v:
            m = v["mem"]
            if not m.get("rel"):
                x = self.decode(bytes.fromhex(m.get("hex", "")), ty)
                if x is not None:
                    return x
            return mk("sym", "constmem", ty, m.get("hex", ""))
        return mk("sym", "const", ty, str(v))

    def constint(self, n, ty, size=None):
        ti = self.tinfo(ty)
        seen = 0
        while ti[0] == "newtype" and seen < 10:
            ty = ti[2][ti[1]]
            ti = self.tinfo(ty)
            seen += 1
        if ti[0] == "bool":
            return TRUE if n else FALSE
        if ti[0] == "enum":
            # field-less enum or niche
            if all(not f for f in ti[1]):
                for i, d in enumerate(ti[2]):
                    if d == n or (d < 0 and size and d + (1 << (8 * size)) == n):
                        return t.en(i)
            x = self.decode(n.to_bytes(size, "little"), ty) if size and n >= 0 else None
            if x is not None:
                return x
            return mk("sym", "constenum", ty, str(n))
        if ti[0] == "int" and ti[1] and size:
            if n >= 1 << (8 * size - 1):
                n -= 1 << (8 * size)
            return I(n)
        if ti[0] == "int":
            return I(n)
        if ti[0] in ("other",):
            d = self.ty(ty)
            if d["k"] == "float":
                return mk("flt", n, d.get("size"))
            return I(n)
        if ti[0] == "ref":
            return mk("addr", n)
        return I(n)

    def decode(self, data, ty):
        ti = self.tinfo(ty)
        n = 0
        while ti[0] == "newtype" and n < 10:
            ty = ti[2][ti[1]]
            ti = self.tinfo(ty)
            n += 1
        d = self.ty(ty)
        if ti[0] == "int":
            return self.constint(int.from_bytes(data, "little"), ty, len(data))
        if ti[0] == "bool" and data:
            return TRUE if data[0] else FALSE
        if d["k"] == "float":
            return mk("flt", int.from_bytes(data, "little"), d.get("size"))
        if ti[0] == "seq":
            es = self.ty(ti[1]).get("size")
            if not data:
                return VNIL
            if es and len(data) % es == 0 and len(data) // es <= 4096:
                xs = [self.decode(data[i:i + es], ti[1]) for i in range(0, len(data), es)]
                if all(x is not None for x in xs):
                    return mk("arr", *xs)
            return None
        if ti[0] == "enum" and all(not f for f in ti[1]) and data:
            return self.constint(int.from_bytes(data, "little"), ty, len(data))
        if ti[0] == "struct" and not ti[1]:
            return UNIT
        if ti[0] == "struct" and d.get("offs") and d["offs"][0] is not None:
            xs = self.decode_fields(data, d["offs"][0], ti[1])
            return t.st(*xs) if xs is not None else None
        if ti[0] == "enum" and d.get("offs"):
            i = d.get("single")
            tag = d.get("tag")
            if tag is not None:
                bits = 8 * tag["size"]
                x = int.from_bytes(data[tag["off"]:tag["off"] + tag["size"]], "little")
                if "untagged" in tag:
                    k = (x - int(tag["start"])) % (1 << bits)
                    i = tag["lo"] + k if k <= tag["hi"] - tag["lo"] else tag["untagged"]
                else:
                    i = next((j for j, dv in enumerate(ti[2]) if dv % (1 << bits) == x), None)
            if i is not None and i < len(ti[1]):
                o = d["offs"][i if tag is not None else 0]
                xs = self.decode_fields(data, o, ti[1][i]) if ti[1][i] else []
                if xs is not None:
                    return t.en(i, *xs)
        return None

    def decode_fields(self, data, offs, tys):
        if offs is None or len(offs) != len(tys):
            return None
        xs = []
        for o, f in zip(offs, tys):
            if self._zst(f):
                xs.append(UNIT)
                continue
            n = self.ty(f).get("size")
            x = self.decode(data[o:o + n], f) if n else None
            if x is None:
                return None
            xs.append(x)
        return xs

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, destty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "reborrow", "raw"):
            base, path, ty = self.walk(st, fr, r[2])
            if base[0] == "Z":
                return mk("zref")
            return self.ref(base, path)
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]),
                              r[4])
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if self.tinfo(r[3])[0] == "bool":
                    return t.notb(a)
                d = self.tinfo(r[3])
                bits = 8 * d[2] if d[0] == "int" else 64
                if a.op == "i":
                    return I(~a.args[0] & ((1 << bits) - 1)) if not (d[0] == "int" and d[1]) \
                        else I(~a.args[0])
                return mk("inv", a, bits)
            if r[1] == "Neg":
                if self.ty(r[3])["k"] == "float":
                    return mk("fneg", a)
                return t.scale(a, -1)
            if r[1] == "PtrMetadata":
                if a.op == "ref" or True:
                    b, p = self.deref(st, a)
                    return t.length(self.rd(st, b, p))
            return mk("sym", "un", r[1])
        if k == "discr":
            base, path, ty = self.walk(st, fr, r[1])
            v = self.rd(st, base, path)
            return self.discr(v, ty)
        if k == "cast":
            v = self.operand(st, fr, r[2])
            if r[1] == "Transmute" and self.rule is not None:
                self.rule.on_transmute(self, st, fr, v, r[3], r[4])
            return self.cast(st, fr, r[1], v, r[3], r[4])
        if k == "agg":
            vs = [self.operand(st, fr, o) for o in r[2]]
            if self.rule:
                self.rule.on_aggregate(self, st, fr, r[1], vs)
            return self.aggregate(st, fr, r[1], vs)
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            ti = self.tinfo(destty)
            n = ti[2] if ti[0] == "seq" else None
            if n is not None and int(n) <= 8:
                n = int(n)
                return mk("arr", *[v] * n) if n else VNIL
            return mk("fill", v, I(int(n)) if n is not None else mk("sym", "n"))
        if k == "tls":
            return mk("sym", "tls")
        raise Limit("rvalue " + k)

    def discr(self, v, ty):
        ti = self.tinfo(ty)
        if ti[0] != "enum":
            if v.op == "ref" or ti[0] == "newtype":
                return I(0)
            return t.disc(v)
        if v.op == "en":
            return I(ti[2][v.args[0]])
        if len(ti[2]) == 1:
            return I(ti[2][0])
        d = t.disc(v)
        self.disc_types[d] = ti[2]
        return d

    def aggregate(self, st, fr, a, vs):
        k = a[0]
        if k == "array":
            return mk("arr", *vs) if vs else VNIL
        if k == "tuple":
            return t.st(*vs)
        if k == "adt":
            ti = self.tinfo(a[1])
            if ti[0] == "enum":
                return t.en(a[2], *vs)
            if ti[0] == "newtype":
                if a[3] is not None:
                    return vs[0] if a[3] == ti[1] else mk("undef", "union")
                return vs[ti[1]]
            if a[3] is not None:
                return vs[0]
            return t.st(*vs)
        if k == "closure":
            return t.st(*vs)
        if k == "rawptr":
            return vs[0]
        raise Limit("aggregate " + k)

    def cast(self, st, fr, kind, v, frm, to):
        fi, ti = self.tinfo(frm), self.tinfo(to)
        for _ in range(5):
            if fi[0] == "newtype":
                fi = self.tinfo(fi[2][fi[1]])
            if ti[0] == "newtype":
                ti = self.tinfo(ti[2][ti[1]])
        if ti[0] == "int":
            if fi[0] == "bool":
                return t.b2i(v)
            if fi[0] == "enum":
                return self.discr(v, frm)
            if fi[0] == "int" or self.ty(frm)["k"] == "char":
                bits = 8 * ti[2]
                fbits = 8 * (fi[2] if fi[0] == "int" else 4)
                if bits < fbits and (bits <= 16 or self.exact):
                    if ti[1]:
                        return mk("str", v, bits)
                    if st.decide(t.lt(v, I(1 << bits))) is True and (
                            v.op not in ("sgn", "ssym")):
                        return v
                    return t.trunc(v, bits)
                if self.exact and fi[0] == "int" and fi[1] != ti[1]:
                    if fi[1] and not ti[1]:
                        if v.op == "i":
                            return I(v.args[0] & ((1 << bits) - 1))
                        if st.decide(t.le(ZERO, v)) is not True:
                            return mk("wrapu", v, bits)
                return v
            if self.ty(frm)["k"] == "float":
                return mk("f2i", v)
            if fi[0] == "ref":
                return mk("addrof", v)
            return v
        if self.ty(to)["k"] == "float":
            if self.ty(frm)["k"] == "float":
                return mk("f2f", v, to)
            return mk("i2f", v, to)
        if ti[0] == "ref" and fi[0] == "other" and v.op == "fnv":
            return v
        return v

    def binop(self, st, op, a, b, ty):
        ti = self.tinfo(ty)
        for _ in range(5):
            if ti[0] == "newtype":
                ti = self.tinfo(ti[2][ti[1]])
        k = self.ty(ty)["k"]
        if ti[0] == "bool":
            if op == "BitAnd":
                return t.and_b(a, b)
            if op == "BitOr":
                return t.or_b(a, b)
            if op in ("BitXor", "Ne"):
                return t.xor_b(a, b)
            if op == "Eq":
                return t.notb(t.xor_b(a, b))
            a, b = t.b2i(a), t.b2i(b)
        if k == "float":
            if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                if op in ("Gt", "Ge"):
                    a, b, op = b, a, {"Gt": "Lt", "Ge": "Le"}[op]
                if op == "Ne":
                    return t.notb(mk("fcmp", "Eq", a, b))
                return mk("fcmp", op, a, b)
            return mk("fop", op, a, b)
        if ti[0] == "ref" and op in ("Lt", "Le", "Gt", "Ge"):
            pa, pb = self.ptr_off(a), self.ptr_off(b)
            if pa and pb and pa[0] == pb[0]:
                a, b = pa[1], pb[1]
        if ti[0] == "ref" and op in ("Eq", "Ne") and not (
                self.rule is not None and self.rule.int_pointers and "ref" not in (a.op, b.op)):
            pa, pb = self.ptr_off(a), self.ptr_off(b)
            if pa and pb and pa[0] == pb[0]:
                r = t.eq(pa[1], pb[1])
            else:
                r = t.eqo(a, b)
            return r if op == "Eq" else t.notb(r)
        if op.startswith("Add"):
            r = t.add(a, b)
        elif op.startswith("Sub"):
            r = t.sub(a, b)
        elif op.startswith("Mul"):
            r = t.mul(a, b)
        elif op == "Div":
            return t.udiv(a, b)
        elif op == "Rem":
            return t.urem(a, b)
        elif op == "BitXor":
            return t.bxor(a, b)
        elif op == "BitAnd":
            return t.band(a, b)
        elif op == "BitOr":
            return t.bor(a, b)
        elif op.startswith("Shl"):
            r = t.shl(a, b)
            if self.exact and ti[0] == "int":
                r = self.wrap(st, r, ti)
            return r if not op.endswith("WithOverflow") else t.st(r, FALSE)
        elif op.startswith("Shr"):
            return t.shr(a, b)
        elif op == "Eq":
            return t.eq(a, b)
        elif op == "Ne":
            return t.notb(t.eq(a, b))
        elif op == "Lt":
            return t.lt(a, b)
        elif op == "Le":
            return t.le(a, b)
        elif op == "Gt":
            return t.lt(b, a)
        elif op == "Ge":
            return t.le(b, a)
        elif op == "Cmp":
            d = t.sub(a, b)
            if d.op == "i":
                return t.en(0 if d.args[0] < 0 else 1 if d.args[0] == 0 else 2)
            c = mk("cmp", a, b)
            return c
        elif op == "Offset":
            return self.ptr_add(a, b)
        else:
            raise Limit("operator " + op)
        if op.endswith("WithOverflow"):
            if self.rule is not None:
                self.rule.on_overflow(self, st, op, r, ti)
            return t.st(r, FALSE)
        if self.exact and ti[0] == "int":
            r = self.wrap(st, r, ti)
        return r

    def wrap(self, st, r, ti):
        """Modular result of an unchecked operation (only in exact mode)."""
        bits = 8 * ti[2]
        if ti[1] or bits == 64:
            return r
        if st.decide(t.lt(r, I(1 << bits))) is True and st.decide(t.le(ZERO, r)) is True:
            return r
        return t.trunc(r, bits)

    def ptr_off(self, v):
        if v.op == "ref" and v.args[1] and v.args[1][-1][0] == "x":
            return (v.args[0], v.args[1][:-1]), v.args[1][-1][1]
        return None

    def ptr_add(self, v, n):
        if v.op == "ref":
            base, path = v.args
            if path and path[-1][0] == "x":
                return mk("ref", base, path[:-1] + (("x", t.add(path[-1][1], n)),))
            return mk("ref", base, path + (("x", n),))
        return mk("ref", ("P", v), (("x", n),))

    # ------------------------------------------------------------ contexts
    def ctx(self, parent, block, key):
        k = (parent, block, key)
        c = self.ctxs.get(k)
        if c is None:
            c = self.ctxs[k] = len(self.ctxinfo)
            self.ctxinfo.append(k)
        return c

    def fresh(self, call, tag=""):
        return mk("sym", "r" + tag, call.fr.ctx if call.fr is not None else -1, call.block,
                  call.fn["name"] if call.fn else "?")

    # ------------------------------------------------------------ reports
    def take_back(self, mark):
        """Removes and returns what was reported since the mark: loops are analysed several times
        and only the reports of the last time count."""
        r = self.reports
        new = list(r)[mark:]
        return [(k, r.pop(k)) for k in new]

    # ------------------------------------------------------------ functions
    def analyse(self, key, args, st):
        """Analyses a function from a root state: list of (state, result)."""
        outs = self.run_fn(key, args, st, None, -1)
        self.npaths += len(outs)
        return outs

    def run_fn(self, key, args, st, parent, block):
        body, crate = self.body(key)
        if body is None:
            raise Limit("no body for " + key)
        ctx = self.ctx(parent.ctx if parent else -1, block, key)
        fr = Frame(body, ctx, parent, key, crate)
        if fr.depth > 60:
            raise Limit("call depth")
        self.analysed.add(body.path)
        s = st.copy()
        for i, a in enumerate(args):
            s.mem[("L", ctx, i + 1)] = a
        rets, _, _ = self.region(fr, None, 0, [s], None)
        out = []
        seen = {}
        for s in rets:
            v = s.mem.get(("L", ctx, 0), UNIT)
            if self.tinfo(body.locals[0][0]) == ("struct", []):
                v = UNIT
            for k in [k for k in s.mem if k[0] == "L" and k[1] == ctx]:
                del s.mem[k]
            s.mem[("RET",)] = v
            out.append(s)
        out = self.merge(out, (ctx, "ret"))
        res = []
        for s in out:
            v = s.mem.pop(("RET",))
            if self.rule is not None:
                self.rule.on_return(self, s, fr, v)
            res.append((s, v))
        return res

    def merge(self, states, tag):
        if len(states) <= 1:
            return states
        groups = {}
        order = []
        for s in states:
            k = (s.ms, frozenset(s.mem.items()))
            g = groups.get(k)
            if g is None:
                groups[k] = [s]
                order.append(k)
            else:
                g.append(s)
        out = []
        many = len(states) > self.merge_limit
        for k in order:
            g = groups[k]
            if len(g) == 1:
                out.append(g[0])
                continue
            uniq = []
            for s in g:
                for u in uniq:
                    if u.facts == s.facts and u.alls == s.alls:
                        break
                else:
                    uniq.append(s)
            if len(uniq) > self.keep_limit or (many and len(uniq) > 1):
                out.append(self.intersect(uniq))
            else:
                out.extend(uniq)
        if len(out) > self.join_limit:
            byms = {}
            for s in out:
                byms.setdefault((s.ms, self.shape(s, None, 1)), []).append(s)
            if len(byms) > self.join_limit // 2:
                byms = {}
                for s in out:
                    byms.setdefault(s.ms, []).append(s)
            if self.debug:
                print("  join", tag, len(out), len(byms))
            out = []
            for k, g in byms.items():
                out.append(g[0] if len(g) == 1 else self.join(g, ("J",) + tag + (hash(k),)))
        return out

    def intersect(self, states):
        s = states[0].copy()
        s.facts = {f: v for f, v in s.facts.items()
                   if all(o.facts.get(f) is v or o.decide(f) is v for o in states[1:])}
        # facts of other states that hold here as well
        for o in states[1:]:
            for f, v in o.facts.items():
                if f not in s.facts and states[0].decide(f) is v and all(
                        q.decide(f) is v for q in states[1:]):
                    s.facts[f] = v
        s.alls = {f: v for f, v in s.alls.items() if all(o.alls.get(f) is v for o in states[1:])}
        if self.rule is not None:
            for a in self.rule.merge_alls(self, states):
                if a.args not in s.alls and all(q.decide_all(a) is True for q in states):
                    s.alls[a.args] = True
        s.rebuild_lins()
        return s

    def join(self, states, tag):
        """Joins states with different memories (used only when there are too many)."""
        bases = set()
        for s in states:
            bases |= set(s.mem)
        h = State()
        h.ms = states[0].ms
        h.preds = states[0].preds
        phis = {}
        for b in bases:
            vs = [self.getbase(s, b) for s in states]
            h.mem[b] = self.joinv(tag, (b,), vs, None, phis)
        h.alls = {f: v for f, v in states[0].alls.items()
                  if all(o.alls.get(f) is v for o in states[1:])}
        cand = {}
        for s in states:
            inv = {}
            for loc, ph in phis.items():
                e = self.valat(s, loc)
                if e is not None and e.op not in ("i", "bool", "en", "st"):
                    inv[e] = ph
            for f, v in s.facts.items():
                c = f if v else t.notb(f)
                cand[c] = None
                c2 = t.subst(c, inv)
                cand[c2] = None
        keep = []
        for c in cand:
            if c.op == "bool":
                continue
            ok = True
            for s in states:
                c2 = t.subst(c, {ph: self.valat(s, loc) for loc, ph in phis.items()})
                if s.decide(c2) is not True:
                    ok = False
                    break
            if ok:
                keep.append(c)
        for c in keep:
            h.assume(c)
        return h

    # ------------------------------------------------------------ regions
    def region(self, fr, blocks, head, states, loophead):
        body = fr.body
        loops = body.loops
        idx = body.rpoidx
        pending = {head: list(states)}
        rets, exits, backs = [], {}, []
        live = body.live
        taken = body.taken

        def route(tgt, s):
            if tgt == "ret":
                rets.append(s)
            elif tgt == loophead:
                backs.append(s)
            elif blocks is None or tgt in blocks:
                pending.setdefault(tgt, []).append(s)
            else:
                exits.setdefault(tgt, []).append(s)
        while pending:
            b = min(pending, key=lambda x: idx[x])
            sts = pending.pop(b)
            for s in sts:
                self.prune(fr, s, live[b], taken)
            sts = self.merge(sts, (fr.ctx, b))
            if b in loops and b != loophead:
                if len(sts) > 1 and len(sts) > self.merge_limit:
                    pass
                for tgt, ss in self.loop(fr, b, sts).items():
                    for s in ss:
                        route(tgt, s)
                continue
            for s in sts:
                for tgt, s2 in self.block(fr, b, s):
                    route(tgt, s2)
        return rets, exits, backs

    def prune(self, fr, s, live, taken):
        ctx = fr.ctx
        for k in [k for k in s.mem if k[0] == "L" and k[1] == ctx and k[2] not in live
                  and k[2] not in taken and k[2] != 0]:
            del s.mem[k]

    # ------------------------------------------------------------ loops
    def shape(self, s, ctx, level=0):
        out = []
        for b, v in s.mem.items():
            if level >= 1 and b[0] != "L" and b[0] != "G":
                continue
            if level >= 2 and b[0] == "L":
                continue
            sh = self.vshape(v, 0)
            if sh is not None:
                out.append((b, sh))
        return frozenset(out)

    def vshape(self, v, d):
        o = v.op
        if o == "bool":
            return v.args[0]
        if o == "en":
            return (v.args[0],) + tuple(self.vshape(x, d + 1) for x in v.args[1:])
        if o == "st" and d < 6:
            xs = tuple(self.vshape(x, d + 1) for x in v.args)
            return xs if any(x is not None for x in xs) else None
        return None

    def valat(self, s, loc):
        b = loc[0]
        v = s.mem.get(b)
        if v is None:
            v = self.default(s, b)
        for e in loc[1:]:
            k = e[0]
            if k == "f":
                v = t.fld(v, e[1], e[2])
            elif k == "v":
                v = t.vfld(v, e[1], e[2])
            elif k == "a":           # constructor argument
                if v.op != e[1]:
                    return None
                v = v.args[e[2]]
            elif k == "su":          # bound of a sub-array
                if v.op == "sub":
                    v = v.args[e[1]]
                else:
                    v = t.length(v) if e[1] == 2 else ZERO
            elif k == "r":           # index inside a reference path
                if v.op != "ref" or len(v.args[1]) <= e[1]:
                    return None
                v = v.args[1][e[1]][e[2]]
            elif k == "x":
                v = t.sel(v, I(e[1]))
            elif k == "rb":
                if v.op == "ref":
                    v = v.args[0][1]
        return v

    def joinv(self, tag, loc, vals, universe, phis):
        """Joins values; differing parts become phi symbols named after their location."""
        v0 = vals[0]
        same = all(v is v0 for v in vals)
        if same and (universe is None or t.leaves(v0) <= universe):
            return v0
        me = mk("phi", tag, loc)
        if any(v is me for v in vals):
            phis[loc] = me
            return me
        ops = {v.op for v in vals}
        if ops == {"ref"}:
            bs = {(v.args[0], tuple(e[0] for e in v.args[1])) for v in vals}
            if len(bs) == 1:
                path = []
                ok = True
                for i, e in enumerate(v0.args[1]):
                    if e[0] == "x":
                        path.append(("x", self.joinv(tag, loc + (("r", i, 1),),
                                                     [v.args[1][i][1] for v in vals], universe,
                                                     phis)))
                    elif e[0] == "s":
                        path.append(("s", self.joinv(tag, loc + (("r", i, 1),),
                                                     [v.args[1][i][1] for v in vals], universe,
                                                     phis),
                                     self.joinv(tag, loc + (("r", i, 2),),
                                                [v.args[1][i][2] for v in vals], universe, phis)))
                    elif all(v.args[1][i] == e for v in vals):
                        path.append(e)
                    else:
                        ok = False
                if ok and (universe is None or t.leaves(v0.args[0]) <= universe):
                    return mk("ref", v0.args[0], tuple(path))
        elif ops == {"en"}:
            if len({(v.args[0], len(v.args)) for v in vals}) == 1:
                var = v0.args[0]
                return t.en(var, *[self.joinv(tag, loc + (("v", var, i, len(v0.args) - 1),),
                                              [v.args[1 + i] for v in vals], universe, phis)
                                   for i in range(len(v0.args) - 1)])
        elif "st" in ops and not (ops & {"en", "i", "bool", "arr", "ref"}):
            ns = {len(v.args) for v in vals if v.op == "st"}
            if len(ns) == 1:
                n = ns.pop()
                if n:
                    return t.st(*[self.joinv(tag, loc + (("f", i, n),),
                                             [t.fld(v, i, n) for v in vals], universe, phis)
                                  for i in range(n)])
        elif len(ops) == 1 and v0.op in ("it", "itm", "dr", "scan"):
            n = len(v0.args)
            xs = []
            for i in range(n):
                if isinstance(v0.args[i], T):
                    xs.append(self.joinv(tag, loc + (("a", v0.op, i),), [v.args[i] for v in vals],
                                         universe, phis))
                elif all(v.args[i] == v0.args[i] for v in vals):
                    xs.append(v0.args[i])
                else:
                    xs = None
                    break
            if xs is not None:
                return mk(v0.op, *xs)
        elif "sub" in ops:
            x = [v.args[0] for v in vals if v.op == "sub"][0]
            if all(v is x or (v.op == "sub" and v.args[0] is x) for v in vals) \
                    and (universe is None or t.leaves(x) <= universe):
                lo = self.joinv(tag, loc + (("su", 1),),
                                [v.args[1] if v.op == "sub" else ZERO for v in vals], universe,
                                phis)
                hi = self.joinv(tag, loc + (("su", 2),),
                                [v.args[2] if v.op == "sub" else t.length(v) for v in vals],
                                universe, phis)
                return mk("sub", x, lo, hi)
        elif ops == {"arr"} and len({len(v.args) for v in vals}) == 1 and len(v0.args) <= 4:
            return mk("arr", *[self.joinv(tag, loc + (("x", i),), [v.args[i] for v in vals],
                                          universe, phis) for i in range(len(v0.args))])
        phis[loc] = me
        return me

    def live_mem(self, fr, s, h):
        return s.mem

    def const_bounded(self, fr, s, h):
        """Whether a live local is an iterator with constant bounds."""
        def const(v, d):
            if v.op in ("it", "itm", "dr"):
                return v.args[1].op == "i" and v.args[2].op == "i" \
                    and v.args[2].args[0] - v.args[1].args[0] <= 6
            if v.op != "st":
                return False
            if len(v.args) == 2 and v.args[0].op == "i" and v.args[1].op == "i" \
                    and 0 <= v.args[1].args[0] - v.args[0].args[0] <= 6:
                return True
            return d and any(const(x, d - 1) for x in v.args)
        return any(b[0] == "L" and const(v, 3) for b, v in s.mem.items())

    def try_unroll(self, fr, h, blocks, entry):
        """Exact analysis of loops that provably finish within a few rounds."""
        bounded = all(self.const_bounded(fr, s, h) for s in entry)
        anyconst = bounded or any(
            k[0] == "L" and v.op == "i" for s in entry for k, v in s.mem.items())
        if not anyconst or len(entry) > 24:
            return None
        mark = len(self.reports)
        steps = self.steps
        exits = {}
        sts = entry
        for rnd in range(9 if bounded else 6):
            try:
                rets, ex, backs = self.region(fr, blocks, h, [s.copy() for s in sts], h)
            except Limit:
                self.take_back(mark)
                raise
            for tgt, ss in ex.items():
                exits.setdefault(tgt, []).extend(ss)
            if rets:
                exits.setdefault("ret", []).extend(rets)
            if not backs:
                return exits
            if not bounded and rnd == 0 and (ex or rets):
                break
            if len(backs) > 40:
                break
            sts = backs
        self.take_back(mark)
        return None

    def loop(self, fr, h, entry):
        blocks = fr.body.loops[h]
        self.loops_done.add((fr.body.path, h))
        self.tick()
        entry = [s for s in entry]
        r = self.try_unroll(fr, h, blocks, entry)
        if r is not None:
            return r
        tag = (fr.ctx, h)
        universe = set()
        for s in entry:
            for v in s.mem.values():
                universe |= t.leaves(v)
            for f in s.facts:
                universe |= t.leaves(f)
        stale = {x for x in universe if x.op == "phi" and x.args[0] == tag}
        if stale:
            # left over from an earlier run of this loop: rename
            m = {x: mk("phi", ("old", tag), x.args[1]) for x in stale}
            m2 = {mk("phi", ("old", tag), x.args[1]): mk("phi", ("old2", tag), x.args[1])
                  for x in stale}
            entry = [self.rename(self.rename(s, m2), m) for s in entry]
            universe = {t.subst(x, m) for x in universe}
        universe = frozenset(universe)
        heads = {}
        born = {}
        reborn = set()
        backs = []
        level = 0
        for rnd in range(26):
            incoming = [(s, None) for s in entry] + backs
            groups = {}
            for s, e in incoming:
                k = self.part_key(s, level)
                # coming from another head counts as entering
                groups.setdefault(k, []).append((s, e is None or e != (k,)))
            if level < 3 and len(groups) > (10, 6, 4)[level]:
                level += 1
                heads = {}
                reborn = set()
                backs = []
                continue
            changed = False
            for k, g in groups.items():
                old = heads.get(k)
                if old is not None and k not in reborn and rnd - born[k] >= 3 \
                        and self.from_heads(incoming, k, level):
                    # by now the heads it is entered from are known better: start again
                    reborn.add(k)
                    old = None
                    g = [x for x in g if x[1]]
                if old is None:
                    born[k] = rnd
                new = self.make_head(fr, h, tag, universe, g, old, rnd - born[k])
                if old is None or not self.same_head(old, new):
                    changed = True
                heads[k] = new
            if not changed and rnd > 0:
                for k, v in buf:
                    self.reports.setdefault(k, v)
                return exits
            mark = len(self.reports)
            exits, backs = {}, []
            for k in list(heads):
                hs = heads[k].copy()
                rets, ex, bk = self.region(fr, blocks, h, [hs], h)
                for tgt, ss in ex.items():
                    exits.setdefault(tgt, []).extend(ss)
                if rets:
                    exits.setdefault("ret", []).extend(rets)
                for s in bk:
                    if self.rule is not None:
                        self.rule.on_backedge(self, s, fr, h)
                backs.extend((s, (k,)) for s in bk)
            buf = self.take_back(mark)
            if self.debug:
                print("  loop", fr.body.path, h, "round", rnd, "heads", len(heads), "backs",
                      len(backs))
        raise Limit("no invariant for the loop in " + fr.body.path)

    def from_heads(self, incoming, k, level):
        """Whether the partition k is entered only from other heads."""
        return all(e is not None for s, e in incoming if self.part_key(s, level) == k) \
            and any(e != (k,) for s, e in incoming if self.part_key(s, level) == k)

    def part_key(self, s, level):
        ms = s.ms
        if self.rule is not None:
            ms = (ms, self.rule.partition(self, s))
        if level == 3:
            return ms
        return (ms, self.shape(s, None, level))

    def rename(self, s, m):
        n = s.copy()
        cache = {}
        n.mem = {(t.subst(b, m, cache) if t.leaves(b) else b): t.subst(v, m, cache)
                 for b, v in s.mem.items()}
        n.facts = {}
        n.lins = {}
        for f, v in s.facts.items():
            g = t.subst(f, m, cache)
            if g.op != "bool":
                n.facts[g] = v
        n.alls = {t.subst(f, m, cache): v for f, v in s.alls.items()}
        n.ms = t.subst(s.ms, m, cache) if isinstance(s.ms, tuple) else s.ms
        n.rebuild_lins()
        return n

    def same_head(self, a, b):
        return a.mem == b.mem and a.facts.keys() == b.facts.keys() and a.alls.keys() == \
            b.alls.keys()

    def make_head(self, fr, h, tag, universe, group, old, rnd):
        states = [s for s, _ in group]
        bases = set(states[0].mem)
        for s in states[1:]:
            bases |= set(s.mem)
        if old is not None:
            bases |= set(old.mem)
        # locals missing somewhere are dead
        bases = {b for b in bases if not (b[0] == "L" and any(b not in s.mem for s in states))}
        if old is not None:
            bases = {b for b in bases if b in old.mem or b[0] != "L"}
        phis = {}
        head = State()
        head.ms = states[0].ms
        head.preds = states[0].preds
        for b in bases:
            vals = [self.getbase(s, b) for s in states]
            if old is not None:
                vals.append(self.getbase(old, b))
            # memory behind a pointer created inside the loop is forgotten
            if b[0] == "P" and not t.leaves(b) <= universe:
                continue
            v = self.joinv(tag, (b,), vals, universe, phis)
            if v.op == "pt" and b[0] == "P" and v.args[0] is b[1]:
                continue
            head.mem[b] = v
        if self.rule is not None:
            self.rule.on_head(self, fr, h, head, phis, states)
        # ---- candidate facts
        sigma = []
        for s in states:
            m = {}
            for loc, ph in phis.items():
                v = self.valat(s, loc)
                if v is not None:
                    m[ph] = v
            sigma.append(m)
        allowed = universe | frozenset(phis.values())
        if isinstance(head.ms, tuple) and head.ms:
            # the monitor follows values that are now known under the name of a loop variable
            ren = set()
            for s, m in zip(states, sigma):
                inv = {}
                for ph, v in m.items():
                    if v.op in ("sym", "vfld", "fld", "sel", "lin", "phi", "pt") and v is not ph \
                            and not t.leaves(v) <= universe:
                        inv.setdefault(v, ph)
                ren.add(t.subst(s.ms, inv) if inv else s.ms)
            if len(ren) == 1:
                head.ms = ren.pop()
        if old is not None and rnd > 2:
            cands = dict.fromkeys(self.fact_terms(old))
        else:
            cands = {}
            if old is not None:
                cands.update(dict.fromkeys(self.fact_terms(old)))
            for (s, is_entry), m in zip(group, sigma):
                self.gen_cands(cands, s, m, phis, is_entry, allowed)
            if self.rule is not None:
                for c in self.rule.loop_candidates(self, fr, h, head, phis, states):
                    cands[c] = None
        keep = []
        cache = [dict() for _ in states]
        for c in cands:
            if c.op == "bool":
                continue
            if not t.leaves(c) <= allowed:
                continue
            ok = True
            for s, m, ch in zip(states, sigma, cache):
                c2 = t.subst(c, m, ch)
                if s.decide(c2) is not True:
                    ok = False
                    break
            if ok:
                keep.append(c)
        # quantified facts
        acands = {}
        for s, m in zip(states, sigma):
            inv = {}
            for ph, v in m.items():
                if v.op not in ("i", "bool", "en", "st") and v is not ph:
                    inv.setdefault(v, ph)
            for a, val in s.alls.items():
                if val:
                    acands[mk("all", *a)] = None
                    acands[mk("all", *t.subst(a, inv))] = None
        for a in (old.alls if old is not None else ()):
            acands[mk("all", *a)] = None
        if old is None or rnd <= 2:
            if self.rule is not None:
                for a in self.rule.loop_alls(self, fr, h, head, phis, states, sigma):
                    acands[a] = None
        else:
            acands = {mk("all", *a): None for a in old.alls}
        for a in acands:
            if not t.leaves(a) <= allowed:
                continue
            if all(s.decide_all(t.subst(a, m)) is True for s, m in zip(states, sigma)):
                head.alls[a.args] = True
        for c in keep:
            head.assume(c)
        return head

    def fact_terms(self, s):
        for f, v in s.facts.items():
            yield f if v else t.notb(f)

    def gen_cands(self, cands, s, m, phis, is_entry, allowed):
        inv = {}
        steps = {}
        ints = []
        for loc, ph in phis.items():
            v = m.get(ph)
            if v is None:
                continue
            d = t.sub(v, ph) if v.op in ("lin", "i", "phi") or v is ph else None
            if d is not None and d.op == "i" and not is_entry:
                steps[ph] = t.sub(ph, d)
            elif v.op not in ("i", "bool", "en", "st", "ref") and v is not ph:
                inv.setdefault(v, []).append(ph)
            ints.append((ph, v))
        base = {v: ps[0] for v, ps in inv.items()}
        fs = list(self.fact_terms(s))
        for c in fs:
            if is_entry or t.leaves(c) <= allowed:
                cands[c] = None
            if inv:
                c2 = t.subst(c, base)
                if c2 is not c:
                    cands[c2] = None
            if steps and not is_entry:
                c2 = t.subst(c, dict(base, **{}) if False else {**base, **steps})
                cands[c2] = None
        for v, ps in inv.items():
            for p in ps[1:]:
                for c in fs[:60]:
                    c2 = t.subst(c, {v: p})
                    if c2 is not c:
                        cands[c2] = None
        if is_entry:
            nums = []
            for ph, v in ints:
                if v.op in ("i", "lin") or (v.op not in (
                        "en", "st", "ref", "arr", "push", "store", "vnil", "it", "asg", "uns",
                        "cat", "sub", "bool", "undef", "swp", "rev", "perm", "splice", "le", "eq",
                        "not", "andb")):
                    cands[t.le(v, ph)] = None
                    cands[t.le(ph, v)] = None
                    nums.append((ph, v))
                if v.op in ("arr", "push", "store", "vnil", "pt", "fld", "sym", "phi", "sel",
                            "cat", "sub", "swp", "rev", "perm", "splice", "vfld", "resize"):
                    cands[t.eq(t.length(ph), t.length(v))] = None
                    cands[t.le(t.length(v), t.length(ph))] = None
                    nums.append((mk("len", ph), t.length(v)))
                if v.op == "bool":
                    cands[ph if v is TRUE else t.notb(ph)] = None
            if len(nums) > 14:
                for (p, v), (q, w) in itertools.combinations(nums, 2):
                    if v is w:
                        cands[t.eq(p, q)] = None
                        cands[t.le(p, q)] = None
                        cands[t.le(q, p)] = None
            else:
                for (p, v), (q, w) in itertools.combinations(nums, 2):
                    for sgn in (-1, 1):
                        d = t.add(v, w, sgn)
                        dd = t.add(p, q, sgn)
                        if len(t.lin_parts(d)[1]) <= 2:
                            cands[t.eq(dd, d)] = None
                            cands[t.le(dd, d)] = None
                            cands[t.le(d, dd)] = None

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit("step limit")
        if self.deadline is not None and self.steps % 64 == 0:
            import time
            if time.time() > self.deadline:
                raise Limit("time limit")

    # ------------------------------------------------------------ blocks
    def block(self, fr, b, s):
        fr.block = b
        self.tick()
        blk = fr.body.blocks[b]
        for stm in blk["s"]:
            self.stmt(s, fr, stm)
        return self.term(s, fr, b, blk["t"], blk["sp"])

    def stmt(self, s, fr, stm):
        k = stm[0]
        if k == "=":
            place = stm[1]
            if len(place) == 1:
                v = self.rvalue(s, fr, stm[2], fr.body.locals[place[0]][0])
                s.mem[("L", fr.ctx, place[0])] = v
            else:
                base, path, ty = self.walk(s, fr, place)
                v = self.rvalue(s, fr, stm[2], ty)
                if base[0] != "Z":
                    self.wr(s, base, path, v, fr, stm[3])
        elif k == "dead":
            s.mem.pop(("L", fr.ctx, stm[1]), None)
        elif k == "setd":
            base, path, ty = self.walk(s, fr, stm[1])
            ti = self.tinfo(ty)
            v = self.rd(s, base, path)
            n = len(ti[1][stm[2]])
            self.wr(s, base, path, t.en(stm[2], *[t.vfld(v, stm[2], j) for j in range(n)]), fr,
                    stm[3])
        elif k == "assume":
            s.assume(self.operand(s, fr, stm[1]))
        elif k == "copy_nonoverlapping":
            self.models.copy_mem(self, s, self.operand(s, fr, stm[1]),
                                 self.operand(s, fr, stm[2]), self.operand(s, fr, stm[3]), fr,
                                 stm[4])
        else:
            raise Limit("statement " + k)

    def setdest(self, s, fr, place, v, span):
        if len(place) == 1:
            s.mem[("L", fr.ctx, place[0])] = v
        else:
            base, path, ty = self.walk(s, fr, place)
            if base[0] != "Z":
                self.wr(s, base, path, v, fr, span)

    def term(self, s, fr, b, tm, sp):
        k = tm[0]
        if k == "goto":
            return [(tm[1], s)]
        if k == "return":
            return [("ret", s)]
        if k == "switch":
            return self.switch(s, fr, tm)
        if k == "assert":
            c = self.operand(s, fr, tm[1])
            if tm[2] is False or tm[2] == 0:
                c = t.notb(c)
            if self.rule is not None:
                self.rule.on_assert(self, s, fr, c, tm, sp)
            if not s.assume(c):
                return []
            return [(tm[3], s)]
        if k == "drop":
            outs = self.drop(s, fr, b, tm, sp)
            return [(tm[3], x) for x in outs]
        if k == "call":
            return self.call(s, fr, b, tm, sp)
        if k in ("unreachable", "resume", "abort"):
            return []
        raise Limit("terminator " + k)

    def switch(self, s, fr, tm):
        v = self.operand(s, fr, tm[1])
        ty = tm[2]
        targets = tm[3]
        if self.tinfo(ty)[0] == "bool":
            vals = dict((int(x), tb) for x, tb in targets)
            f = vals.get(0, tm[4])
            tr = vals.get(1, tm[4])
            return [(tr if x else f, s2) for s2, x in self.fork(s, v)]
        out = []
        if v.op == "cmp":
            return self.switch_cmp(s, v, targets, tm[4])
        bits = None
        if v.op == "i":
            n = v.args[0]
            for x, tb in targets:
                if int(x) == n or (n < 0 and int(x) in (n + 256, n + (1 << 16), n + (1 << 32),
                                                       n + (1 << 64), n + (1 << 128))):
                    return [(tb, s)]
            return [(tm[4], s)] if tm[4] is not None else []
        if v.op == "disc" and v.args[0].op == "cmp":
            return self.switch_cmp(s, v.args[0], targets, tm[4])
        rest = s.copy()
        for x, tb in targets:
            s2 = s.copy()
            e = t.eq(v, I(int(x)))
            if s2.assume(e, True):
                out.append((tb, s2))
        if tm[4] is not None:
            ok = True
            for x, _ in targets:
                if not rest.assume(t.eq(v, I(int(x))), False):
                    ok = False
                    break
            if ok:
                dt = self.disc_types.get(v)
                if dt is not None:
                    left = [d for d in dt if d not in [int(x) for x, _ in targets]]
                    left = [d for d in left if rest.decide(t.eq(v, I(d))) is not False]
                    if not left:
                        ok = False
                    elif len(left) == 1:
                        ok = rest.assume(t.eq(v, I(left[0])), True)
            if ok:
                out.append((tm[4], rest))
        return out

    def switch_cmp(self, s, c, targets, other):
        a, b = c.args
        out = []
        conds = {-1: (t.lt(a, b),), 0: (t.eq(a, b),), 1: (t.lt(b, a),)}
        vals = {}
        for x, tb in targets:
            n = int(x)
            if n > 1:
                n = -1
            vals[n] = tb
        for n in (-1, 0, 1):
            tb = vals.get(n, other)
            if tb is None:
                continue
            s2 = s.copy()
            if all(s2.assume(q) for q in conds[n]):
                out.append((tb, s2))
        return out

    # ------------------------------------------------------------ drops
    def drop(self, s, fr, b, tm, sp):
        key, haslocal = tm[5], tm[6]
        if not key and not haslocal:
            if self.rule is not None and self.rule.all_drops:
                base, path, ty = self.walk(s, fr, tm[1])
                r = self.rule.on_drop(self, s, fr, base, path, ty, sp)
                if r is not None:
                    return r
            return [s]
        base, path, ty = self.walk(s, fr, tm[1])
        return self.drop_value(s, fr, b, base, path, ty, sp)

    def drop_value(self, s, fr, b, base, path, ty, sp):
        d = self.ty(ty)
        ti = self.tinfo(ty)
        if self.rule is not None:
            r = self.rule.on_drop(self, s, fr, base, path, ty, sp)
            if r is not None:
                return r
        if d["k"] == "adt" and d.get("local") and d.get("drop_impl"):
            key = self.drop_key(ty)
            if key is not None:
                fn = {"path": "drop", "name": "drop", "kind": "item", "key": key, "args": [],
                      "rpath": key}
                p = self.prims.get("drop " + d["path"])
                if p is not None:
                    return p(self, s, fr, b, base, path, sp)
                out = []
                for s2, _ in self.run_fn(key, [self.ref(base, path)], s, fr, b):
                    out.append(s2)
                return out
        if ti[0] == "struct" and d["k"] in ("adt", "tuple"):
            sts = [s]
            for i, f in enumerate(ti[1]):
                if self.has_local_drop(f):
                    sts = [x for y in sts for x in self.drop_value(
                        y, fr, b, base, path + (("f", i, len(ti[1])),), f, sp)]
            return sts
        if ti[0] == "newtype" and self.has_local_drop(ti[2][ti[1]]):
            return self.drop_value(s, fr, b, base, path, ti[2][ti[1]], sp)
        if ti[0] == "enum":
            v = self.rd(s, base, path)
            dd = self.discr(v, ty)
            out = []
            for var, fs in enumerate(ti[1]):
                s2 = s.copy()
                if not s2.assume(t.eq(dd, I(ti[2][var]))):
                    continue
                sts = [s2]
                for i, f in enumerate(fs):
                    if self.has_local_drop(f):
                        sts = [x for y in sts for x in self.drop_value(
                            y, fr, b, base, path + (("v", var, i, len(fs)),), f, sp)]
                out.extend(sts)
            return out
        return [s]

    def drop_key(self, ty):
        c = self._tc.get(("drop", ty))
        if c is None:
            c = ""
            d = self.ty(ty)
            for cr in self.crates:
                for k, bd in cr.raw.items():
                    if bd["path"].endswith("std::ops::Drop>::drop") and "blocks" in bd and \
                            bd["locals"][1][0] == "&mut " + ty:
                        c = k
            if not c:
                # lifetimes may be printed differently
                import re
                strip = lambda x: re.sub(r"'\w+,? ?", "", x)
                for cr in self.crates:
                    for k, bd in cr.raw.items():
                        if bd["path"].endswith("std::ops::Drop>::drop") and "blocks" in bd and \
                                strip(bd["locals"][1][0]) == strip("&mut " + ty):
                            c = k
            self._tc[("drop", ty)] = c
        return c or None

    def has_local_drop(self, ty, seen=None):
        d = self.ty(ty)
        if d["k"] == "adt":
            if d.get("local") and d.get("drop_impl"):
                return True
            if d["path"] in ATOMIC or d["path"] == "std::mem::ManuallyDrop":
                return False
            if seen is None:
                seen = set()
            if ty in seen:
                return False
            seen.add(ty)
            return any(self.has_local_drop(f["ty"], seen) for v in d["variants"]
                       for f in v["fields"])
        if d["k"] == "tuple":
            return any(self.has_local_drop(x, seen) for x in d["tys"])
        return False

    # ------------------------------------------------------------ calls
    def call(self, s, fr, b, tm, sp):
        func, ops, dest, target, _, argtys, destty = tm[1:8]
        args = [self.operand(s, fr, o) for o in ops]
        fn = None
        if func[0] == "k":
            fn = func[1].get("fn")
        if fn is None:
            fv = self.operand(s, fr, func)
            if fv.op == "fnv":
                fn = self.fnrecs.get(fv.args[0])
                fn = dict(fn)
        if fn is None:
            fn = {"path": "?indirect", "name": "?indirect", "kind": "indirect", "args": []}
        outs = self.invoke(s, fr, b, fn, args, argtys, destty, sp, ops)
        if target is None:
            return []
        res = []
        for s2, v in outs:
            self.setdest(s2, fr, dest, v, sp)
            res.append((target, s2))
        return res

    def invoke(self, s, fr, b, fn, args, argtys, destty, sp, ops=None):
        path = fn.get("rpath") or fn["path"]
        call = Call(fn=fn, path=path, key=fn.get("key"), args=args, argtys=argtys, destty=destty,
                    span=sp, fr=fr, block=b, site=(fr.ctx, b), ops=ops)
        self.callsites.add((fr.body.path, b))
        if self.rule is not None:
            r = self.rule.on_call(self, s, call)
            if r is not None:
                return r
        p = self.prims.get(path) or self.prims.get(fn["path"])
        if p is not None:
            r = p(self, s, call)
            if r is not None:
                return r
        m = self.models.lookup(fn, path)
        if m is not None:
            r = m(self, s, call)
            if r is not None:
                return r
        key = fn.get("key")
        if key is not None:
            body, _ = self.body(key)
            if body is not None:
                if any(f.key == key for f in fr.chain()):
                    if self.rule is not None:
                        r = self.rule.on_recursion(self, s, call)
                        if r is not None:
                            return r
                    return self.opaque(s, call)
                if body.kind == "Closure" and fn["name"].startswith("call") and \
                        "#shim" not in fr.key and len(args) == 2:
                    ti = self.tinfo(argtys[1])
                    n = len(ti[1]) if ti[0] == "struct" else 0
                    args = [args[0]] + [t.fld(args[1], i, n) for i in range(n)]
                elif fn["name"].startswith("call") and len(args) == 2 and body.argc != 2:
                    ti = self.tinfo(argtys[1])
                    n = len(ti[1]) if ti[0] == "struct" else 0
                    if body.argc == n:
                        args = [t.fld(args[1], i, n) for i in range(n)]
                elif fn["name"].startswith("call") and "ops::Fn" in fn["path"] and \
                        len(args) == 2 and "#shim" not in key:
                    ti = self.tinfo(argtys[1])
                    n = len(ti[1]) if ti[0] == "struct" else 0
                    if body.argc == n:
                        args = [t.fld(args[1], i, n) for i in range(n)]
                return self.run_fn(key, args, s, fr, b)
        # a call through a function value whose target is known
        if fn["name"].startswith("call") and args and args[0].op == "fnv":
            rec = self.fnrecs.get(args[0].args[0])
            if rec is not None and rec is not fn and len(args) == 2:
                ti = self.tinfo(argtys[1])
                n = len(ti[1]) if ti[0] == "struct" else 0
                return self.invoke(s, fr, b, rec, [t.fld(args[1], i, n) for i in range(n)],
                                   list(ti[1]) if n else [], destty, sp)
        return self.opaque(s, call)

    def opaque(self, s, call):
        """An unknown call: everything reachable through mutable references is lost."""
        self.opaque_calls.add((call.path, call.fr.body.path))
        if self.debug:
            print("  opaque", call.path, "in", call.fr.body.path)
        for i, (a, ty) in enumerate(zip(call.args, call.argtys)):
            self.havoc(s, a, ty, call, (i,))
        v = self.fresh(call)
        ti = self.tinfo(call.destty)
        if ti == ("struct", []):
            v = UNIT
        elif ti[0] == "int" and ti[1]:
            v = mk("ssym", v)
        return [(s, v)]

    def havoc(self, s, v, ty, call, pos, depth=0):
        d = self.ty(ty)
        if depth > 4:
            return
        if d["k"] in ("ref", "ptr"):
            if d.get("mut"):
                if v.op == "zref":
                    return
                b, p = self.deref(s, v)
                ti = self.tinfo(d["ty"])
                if ti[0] in ("struct", "newtype") and self.has_ref(d["ty"]):
                    # a structure of references: what they point to is lost, too
                    old = self.rd(s, b, p)
                    self.havoc(s, old, d["ty"], call, pos + ("*",), depth + 1)
                self.wr(s, b, p, mk("sym", "havoc", call.fr.ctx, call.block, str(pos)), call.fr,
                        call.span)
            return
        ti = self.tinfo(ty)
        if ti[0] == "struct":
            for i, f in enumerate(ti[1]):
                if self.has_ref(f):
                    self.havoc(s, t.fld(v, i, len(ti[1])), f, call, pos + (i,), depth + 1)
        elif ti[0] == "newtype":
            if self.has_ref(ti[2][ti[1]]):
                self.havoc(s, v, ti[2][ti[1]], call, pos + (0,), depth + 1)

    def has_ref(self, ty, depth=0):
        d = self.ty(ty)
        if d["k"] in ("ref", "ptr"):
            return bool(d.get("mut"))
        if depth > 4:
            return False
        ti = self.tinfo(ty)
        if ti[0] == "struct":
            return any(self.has_ref(f, depth + 1) for f in ti[1])
        if ti[0] == "newtype":
            return self.has_ref(ti[2][ti[1]], depth + 1)
        return False

    # ------------------------------------------------------------ helpers for models
    def fork(self, s, cond):
        """[(state, True/False)] for the feasible outcomes of a condition."""
        d = s.decide(cond)
        if d is not None:
            s.assume(cond, d)
            return [(s, d)]
        out = []
        if cond.op == "not":
            return [(s2, not x) for s2, x in self.fork(s, cond.args[0])]
        if cond.op == "xorb":
            for s2, x in self.fork(s, cond.args[0]):
                out += [(s3, x != y) for s3, y in self.fork(s2, cond.args[1])]
            return out
        if cond.op == "andb":
            for s2, x in self.fork(s, cond.args[0]):
                out += self.fork(s2, cond.args[1]) if x else [(s2, False)]
            return out
        s2 = s.copy()
        if s.assume(cond, False):
            out.append((s, False))
        if s2.assume(cond, True):
            out.append((s2, True))
        return out

    def read_as(self, st, v, ty):
        """Reads through a pointer that may have been cast to an array type."""
        b, p = self.deref(st, v)
        ti = self.tinfo(ty)
        for _ in range(4):
            if ti[0] == "newtype":
                ti = self.tinfo(ti[2][ti[1]])
        if ti[0] == "seq" and ti[2] is not None and p and p[-1][0] == "x":
            i = p[-1][1]
            return self.rd(st, b, p[:-1] + (("s", i, t.add(i, I(int(ti[2])))),))
        return self.rd(st, b, p)


class Rule(object):
    """Default (empty) rule."""
    preds = {}
    all_drops = False   # whether on_drop is also wanted for values without drop code of their own

    def merge_alls(self, eng, states):
        """Quantified facts to keep when states with the same memory are merged."""
        return ()

    def partition(self, eng, st):
        """What else distinguishes the states that are joined at a loop head."""
        return None

    def on_write(self, eng, st, base, path, new, fr, span):
        pass

    def on_aggregate(self, eng, st, fr, a, vs):
        pass

    def on_call(self, eng, st, call):
        return None

    def on_recursion(self, eng, st, call):
        return None

    def on_return(self, eng, st, fr, v):
        pass

    def on_backedge(self, eng, st, fr, h):
        pass

    def on_assert(self, eng, st, fr, cond, tm, sp):
        pass

    def on_overflow(self, eng, st, op, r, ti):
        pass

    def on_drop(self, eng, st, fr, base, path, ty, sp):
        return None

    def on_index(self, eng, st, call, base, path, idx, n):
        pass

    def on_transmute(self, eng, st, fr, v, frm, to):
        pass

    int_pointers = False        # raw pointers are positions (integers)

    def on_ptr(self, eng, st, call, kind, ptr, n):
        pass

    def on_raw(self, eng, st, fr, ptr, ty):
        """A raw pointer to a value of type ty is dereferenced."""

    def on_unchecked(self, eng, st, call, base, path, lo, hi):
        """Elements lo..hi are accessed without a bounds check."""

    def on_sort(self, eng, st, call, base, path, old, new):
        pass

    def on_unreachable(self, eng, st, call):
        pass

    def on_head(self, eng, fr, h, head, phis, states):
        """The memory of a loop head has been made."""

    def loop_candidates(self, eng, fr, h, head, phis, states):
        return ()

    def loop_alls(self, eng, fr, h, head, phis, states, sigma):
        return ()
