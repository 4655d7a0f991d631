"""A ledger of all unsafe operations of the library, read from MIR: calls of unsafe functions,
dereferences of raw pointers, casts between pointer types, transmutes, unsafe trait implementations,
unions and mutable statics (what the compiler itself generates for boxes, formatting and the
allocator attribute aside).  Each has to lie in a module that may contain operations of its kind, and
to be covered by an argument that is decided here or by another check:

* Conversions between a type and its storage: the two types have to be related by representation
  (transparent or single-field C structures peeled, element by element through arrays, slices and
  references; a type parameter only against its associated storage type and only where the parameter
  is bound by the unsafe trait).  In safe functions only the direction that forgets invariants is
  accepted, and never behind a mutable reference.  Every implementation of the conversion traits and
  of the unsafe marker trait is checked in the same way.
* Lifetime changes in clause minimization: both types are the same vector type up to lifetimes and
  the vector is empty on every path to the transmute (symbolic evaluation of the function).
* Clause storage: every safe function with unsafe operations is a subject of C15, C16 and C37, which
  decide bounds, initialised words and the unreachable hint; unsafe functions of the storage may be
  called from there only.
* The vector scan: C21.  Unchecked literal and variable constructors: only within their own module,
  whose safe functions are subject to C17."""
import re
from .. import terms as t
from ..terms import ZERO, mk
from ..engine import Rule
from ..state import State
from ..check import Unknown
from . import scan
from .common import hav_call, post, pre
from . import c34

RULE = ("query over all MIR bodies for unsafe operations, representation relation between the types of "
        "every conversion, emptiness of a vector at every lifetime-changing transmute")
TECHNIQUE = "MIR query over unsafe operations with a layout relation on types; abstract interpretation"
ASSUMES = ["C15, C16, C17, C21 and C37 for the operations inside their modules",
           "the compiler checks sizes in transmutes and the unsafe keyword"]

ARENA, SCAN, TR, MIN, LIT = ("starlit::clause_arena", "starlit::util::mut_scan",
                             "starlit::util::transparent", "starlit::minimize", "starlit::lit")
CS = "starlit::util::transparent::ConvertStorage"
MC = "starlit::minimize::MinimizeClause"
MARK = "starlit::util::transparent::Transparent"


def strip(ty):
    """A type without lifetimes."""
    ty = re.sub(r"'[A-Za-z_0-9{}]+ ?", "", ty)
    ty = re.sub(r"<\s*(, *)*>", "", ty)
    return re.sub(r"<(, *)+", "<", ty)


def module(path):
    """Module (by name) of a function or implementation: the module of its self type."""
    for m in (ARENA, SCAN, TR, MIN, LIT):
        if path.startswith(m + "::") or path.startswith("<" + m + "::"):
            return m
    if " as " + TR + "::" in path:
        return TR
    return None


class Layout(object):
    def __init__(self, lib):
        self.lib = lib
        self.types = {}
        self.judged, self.skipped = set(), set()
        for s, d in lib.types.items():
            self.types.setdefault(strip(s), d)

    def peels(self, a, b, bound, depth=0):
        """b is a's representation (or that of its parts)."""
        a, b = strip(a), strip(b)
        if a == b:
            return True
        if depth > 12:
            return False
        for w in ("&mut ", "&", "*const ", "*mut "):
            if a.startswith(w):
                return b.startswith(w) and not (w == "&" and b.startswith("&mut ")) and \
                    self.peels(a[len(w):], b[len(w):], bound, depth + 1)
        if b == "<%s as %s>::Storage" % (a, CS):
            return a in bound or a.startswith(("[", "starlit::"))
        if a.startswith("[") and b.startswith("["):
            x, y = self.parts(a), self.parts(b)
            if x[1] == y[1] and self.peels(x[0], y[0], bound, depth + 1):
                return True
        d = self.types.get(a)
        if d is None or d["k"] != "adt" or d.get("adt") != "struct" or \
                d["repr"] not in ("transparent", "C"):
            return False
        fs = d["variants"][0]["fields"]
        full = [f for f in fs if not self.empty(f["ty"])]
        if len(full) > 1:
            return False
        f = full[0] if full else fs[0] if fs else None
        if f is None:
            return b == "()"
        if d["repr"] == "C":
            o = self.types.get(strip(f["ty"]))
            if o is None or (o.get("size"), o.get("align")) != (d.get("size"), d.get("align")):
                return False
        return self.peels(f["ty"], b, bound, depth + 1)

    def parts(self, a):
        """(element type, length) of an array or slice type."""
        depth = 0
        for i in range(len(a) - 1, 0, -1):
            c = a[i]
            if c in ")]>" and not (c == ">" and a[i - 1] in "-="):
                depth += 1
            elif c in "([<":
                depth -= 1
            elif c == ";" and depth == 1:
                return a[1:i].strip(), a[i + 1:-1].strip()
        return a[1:-1].strip(), None

    def empty(self, ty):
        d = self.types.get(strip(ty))
        return d is not None and d.get("size") == 0 and d.get("align", 1) == 1 or \
            strip(ty).startswith("std::marker::PhantomData")


def generated(path, callee):
    return callee.startswith("std::fmt::Arguments") or "::_::__rust_" in path


ALLOWED = {
    ARENA: ("std::", "core::", "alloc::", TR, "<&", ARENA, "starlit::lit::"),
    SCAN: ("std::", "core::", "alloc::", SCAN),
    TR: ("std::ptr::", "std::mem::", "core::", "std::intrinsics::", TR, "<&"),
    MIN: (),
    LIT: (LIT,),
}


def ledger(cx, crate, name, lay):
    n = 0
    unsafe_fns = {p for p, f in cx.lib.fns.items() if f["unsafe"]}
    bounds = impl_bounds(cx)
    stacks = {}
    for k, b in scan.bodies(crate):
        path = b.path
        m = module(path) if name == "lib" else None
        base = scan.base(path)
        fn = crate.fns.get(base) or crate.fns.get(path) or {}
        w = path
        for rec, tm, sp, bb in scan.calls(b):
            if not rec:
                continue
            callee = rec["path"]
            tail = callee.rsplit("::", 1)[-1]
            w = "%s at %s" % (path, scan.line(sp)) if hasattr(scan, "line") else path
            if tail in ("cast", "cast_array", "cast_init", "cast_slice") and "ptr::" in callee and m not in \
                    (ARENA, SCAN):
                frm, to = operand_type(b, tm[2][0]), b.locals[tm[3][0]][0]
                n += 1
                conversion(cx, lay, bounds, b, fn, m, frm, to, w)
            if not rec.get("unsafe") or generated(path, callee):
                continue
            n += 1
            ok = m is not None and callee.startswith(ALLOWED[m])
            if m == TR and tail in ("from_raw_parts", "from_raw_parts_mut") and "slice" in callee:
                ok = whole(b, tm)
            cx.ob(ok, "c30:call:%s:%s" % (base, callee),
                  "%s is called where nothing establishes its requirements" % callee, w)
        for bl in b.blocks:
            for s in bl["s"]:
                if s[0] != "=" or s[2][0] != "cast":
                    continue
                kind, frm, to = s[2][1], s[2][3], s[2][4]
                w = "%s at %s" % (path, scan.line(s[3])) if len(s) > 3 else path
                if kind == "PtrToPtr":
                    x, y = strip(frm).split(" ", 1)[-1], strip(to).split(" ", 1)[-1]
                    if x == y or m in (ARENA, SCAN):
                        continue
                    n += 1
                    conversion(cx, lay, bounds, b, fn, m, frm, to, w)
                elif kind == "Transmute":
                    n += 1
                    if strip(frm) == strip(to) and "Vec<" in frm:
                        if m is None:
                            cx.ob(False, "c30:transmute:" + base,
                                  "a lifetime is changed outside of clause minimization", w)
                        stacks.setdefault(k, set()).add((frm, to))
                    else:
                        conversion(cx, lay, bounds, b, fn, m, frm, to, w)
                elif kind in ("PointerWithExposedProvenance", "IntToPtr", "PointerFromExposedAddress"):
                    cx.ob(False, "c30:address:" + base, "an address is made up", w)
        for pl, use, sp in scan.places(b):
            if len(pl) < 2:
                continue
            ty = b.locals[pl[0]][0]
            for e in pl[1:]:
                if e[0] == "d" and ty.startswith("*"):
                    if compiler_made(b, pl[0]):
                        break
                    n += 1
                    w = "%s at %s" % (path, scan.line(sp))
                    cx.ob(m in (ARENA, SCAN, TR), "c30:raw:" + base,
                          "a raw pointer is dereferenced where nothing establishes that it is valid", w)
                    break
                if e[0] == "f":
                    ty = e[2]
                elif e[0] == "d":
                    ty = ty[1:].replace("mut ", "", 1) if ty.startswith("&mut ") else ty.lstrip("&")
                else:
                    ty = "?"
    return n, stacks


def whole(b, tm):
    """Pointer and length are those of one slice."""
    defs = {}
    for bl in b.blocks:
        for s in bl["s"]:
            if s[0] == "=" and len(s[1]) == 1:
                defs.setdefault(s[1][0], []).append(("r", s[2]))
        c = bl["t"]
        if c[0] == "call" and c[3] and len(c[3]) == 1:
            defs.setdefault(c[3][0], []).append(("c", c))

    def origin(o, calls):
        for _ in range(12):
            if o[0] not in ("c", "m"):
                return None
            l = o[1]
            d = defs.get(l[0], [])
            if len(d) > 1:
                return None
            if not d:
                return l[0]
            kind, x = d[0]
            if kind == "c":
                f = x[1][1].get("fn", {}).get("path", "") if x[1][0] == "k" else ""
                if not f.rsplit("::", 1)[-1] in calls:
                    return None
                o = x[2][0]
            elif x[0] == "use":
                o = x[1]
            elif x[0] == "cast":
                o = x[2]
            elif x[0] in ("ref", "raw") and [e for e in x[2][1:] if e[0] != "d"] == []:
                o = ["c", x[2]]
            elif x[0] == "un" or x[0] == "len":
                o = x[2] if x[0] == "un" else ["c", x[1]]
            else:
                return None
        return None
    a = origin(tm[2][0], ("cast", "as_ptr", "as_mut_ptr"))
    n = origin(tm[2][1], ("len",))
    return a is not None and a == n


def compiler_made(b, local):
    """The pointer is the compiler's own access to a box."""
    for bl in b.blocks:
        for s in bl["s"]:
            if s[0] == "=" and s[1] == [local]:
                if s[2][0] != "cast" or "BoxDeref" not in s[2][1]:
                    return False
    return True


def operand_type(b, o):
    if o[0] == "k":
        return o[1].get("ty", "?")
    pl = o[1]
    if len(pl) == 1:
        return b.locals[pl[0]][0]
    last = pl[-1]
    return last[2] if last[0] == "f" else "?"


def impl_bounds(cx):
    """Self type of each conversion impl -> parameters bound by the unsafe marker trait."""
    out = {}
    for im in cx.lib.d["impls"]:
        if str(im.get("trait", "")).startswith(TR):
            ps = set()
            for p in im.get("preds", ()):
                l, _, r = p.partition(":")
                if r.strip().endswith("transparent::Transparent"):
                    ps.add(l.strip())
            out[(strip(im["self"]), im["trait"])] = ps
    return out


def conversion(cx, lay, bounds, b, fn, m, frm, to, w):
    base = scan.base(b.path)
    key = "c30:convert:%s" % base
    if m != TR and " as " + TR + "::" not in b.path:
        cx.ob(False, key, "a value of one type is taken for one of another (%s, %s)" % (frm, to), w)
        return
    bound = set()
    st = strip(fn.get("self_ty", ""))
    own = " ".join([str(fn.get("self_ty", "")), " ".join(map(str, fn.get("inputs", ()))),
                    str(fn.get("output", ""))])
    if foreign(frm + " " + to, own):
        # an instance for a type parameter of another function: the polymorphic body is judged
        lay.skipped.add(base)
        return
    lay.judged.add(base)
    for (s, tr), ps in bounds.items():
        if s == st:
            bound |= ps
    down, up = lay.peels(frm, to, bound), lay.peels(to, frm, bound)
    if fn.get("unsafe"):
        cx.ob(down or up, key, "%s and %s are not known to have the same representation" % (frm, to), w)
        return
    mutable = strip(to).startswith(("&mut ", "*mut "))
    cx.ob(down and not mutable, key, "%s is converted to %s in a safe function: %s" % (
        frm, to, "not known to have the same representation" if not (down or up) else
        "invariants of the type can be broken"), w)


def foreign(tys, own):
    """A bare type parameter that does not occur in `own`."""
    pat = r"(?<![\w:])[A-Z]\w*(?![\w:])"
    return set(x for x in re.findall(pat, tys) if not x.isupper() or len(x) == 1) - set(re.findall(pat, own))


def traits(cx, lay, bounds):
    marked = set()
    for im in cx.lib.d["impls"]:
        tr = str(im.get("trait", ""))
        s = strip(im["self"])
        ps = bounds.get((s, im.get("trait")), set())
        w = "%s for %s" % (tr.rsplit("::", 1)[-1], im["self"])
        if tr == MARK:
            marked.add(s)
            cx.ob(im["unsafe"], "c30:marker", "the representation guarantee is not an unsafe trait", w)
        elif im["unsafe"] and not tr.endswith("TrivialClone"):
            cx.ob(False, "c30:unsafe-impl:%s:%s" % (s, tr), "an unsafe trait is implemented without an "
                  "argument", w)
        if tr in (CS, CS + "Mut"):
            for nm, ty in im["types"]:
                cx.ob(lay.peels(im["self"], ty, ps), "c30:storage:" + s, "%s is not the "
                      "representation of %s" % (ty, im["self"]), w)
    for s in sorted(marked):
        ok = (s, CS) in bounds
        cx.ob(ok, "c30:marked:" + s, "%s has no storage type" % s, s)
        d = lay.types.get(s)
        if s.startswith("["):
            el = lay.parts(s)[0]
            ok = el in bounds.get((s, MARK), ())
            cx.ob(ok, "c30:marked:" + s, "%s is said to have the representation of its storage "
                  "whatever its items are" % s, s)
        elif d is not None:
            ok = d["k"] == "adt" and d["repr"] in ("transparent", "C")
            cx.ob(ok, "c30:marked:" + s, "%s does not have a fixed representation" % s, s)
    for c in cx.lib.d["consts"]:
        cx.ob(not c.get("mutable"), "c30:static:" + c["path"], "a mutable static", c["path"])
    for p, f in sorted(cx.lib.fns.items()):
        if f.get("in_trait", "") in (CS, CS + "Mut"):
            tail = p.rsplit("::", 1)[-1]
            need = "unchecked" in tail or tail.endswith("_mut")
            cx.ob(f["unsafe"] or not need, "c30:trait:" + tail,
                  "%s is a safe function but lets its caller break invariants" % tail, p)


class Lifetimes(Rule):
    """The vector is empty wherever its lifetimes are changed."""

    def __init__(self, cx, keys, field):
        self.cx, self.keys, self.field = cx, keys, field
        self.bad = []
        self.seen = 0

    def on_transmute(self, eng, st, fr, v, frm, to):
        if strip(frm) != strip(to) or "Vec<" not in frm:
            return
        self.seen += 1
        if st.decide(t.le(t.length(v), ZERO)) is not True:
            self.bad.append(fr.chain() if hasattr(fr, "chain") else fr.body.path)

    def on_call(self, eng, st, c):
        if not c.fn or c.fn.get("crate") != "starlit" and not c.path.startswith(("starlit::", "<starlit::")):
            return None
        if c.path.startswith((MIN + "::", "<" + MIN + "::")) and (
                any("StackItem" in ty for ty in c.argtys) or "StackItem" in str(c.destty) or
                c.key in self.keys):
            return None
        return hav_call(eng, st, c)


def judge(cx, p, keys, field=None):
    """Whether the vector is empty at all lifetime changes below p; with `field`, given that the vector
    kept in that field is empty at entry, and that it is at every return."""
    ks = list(cx.lib.find(p))
    if not ks:
        raise Unknown(p)
    for kk in ks:
        rule = Lifetimes(cx, keys, None)
        e = cx.engine(rule, {})
        st = State()
        ps = []
        if field:
            ps = [i for i, ty in enumerate(cx.params(kk)) if MC in ty]
            if not ps:
                return False
            for i in ps:
                v = getattr(pre(e, cx, mk("sym", "a%d" % i), MC), field)
                st.assume(t.le(t.length(v), ZERO))
        e, a, outs = cx.run(kk, st=st, rule=rule, eng=e)
        if rule.bad or not rule.seen:
            return False
        for s, _ in outs:
            for i in ps:
                v = getattr(post(e, cx, s, a[i], MC), field)
                if s.decide(t.le(t.length(v), ZERO)) is not True:
                    return False
    return True


def lifetimes(cx, stacks):
    cm = scan.callmap(cx.lib)
    for k in sorted(stacks):
        path = scan.base(cx.lib.body(k).path)
        entries = {path}
        for depth in range(3):
            bad = []
            for p in sorted(entries):
                if not judge(cx, p, set(stacks)) and not kept(cx, p, set(stacks)):
                    bad.append(p)
            if not bad:
                break
            # private helpers: judged where they are used
            up = set()
            for p in bad:
                f = cx.lib.fns.get(p, {})
                cs = set() if f.get("exported") else set(cm.get(p, ()))
                cs = {scan.base(x) for x in cs if module(x) == MIN}
                if not cs:
                    up = None
                    break
                up |= cs
            if up is None or up == entries:
                break
            entries = (entries - set(bad)) | up
        cx.ob(not bad, "c30:lifetime:" + path, "lifetimes of a vector are changed that may not be "
              "empty", cx.where(path))


def kept(cx, p, keys):
    """The same, for a vector that is kept empty between calls in a field nobody else fills."""
    d = cx.lib.types.get(MC)
    if d is None:
        return False
    fs = [f["name"] for f in d["variants"][0]["fields"] if "Vec<" in f["ty"] and
          "StackItem" in f["ty"] and not f["pub"]]
    for f in fs:
        ws = {scan.base(w) for w in c34.writers(cx, MC, f)}
        made = {w for w in ws if w.endswith("::default") or w.endswith("::new")}
        if ws - made - {p}:
            continue
        if judge(cx, p, keys, f):
            return True
    return False


def run(cx):
    lay = Layout(cx.lib)
    bounds = impl_bounds(cx)
    n, stacks = ledger(cx, cx.lib, "lib", lay)
    m, st2 = ledger(cx, cx.cli, "cli", lay)
    cx.ob(not st2, "c30:cli", "unsafe code in the command line tool", "starlit-cli")
    for base in sorted(lay.skipped - lay.judged):
        raise Unknown("no polymorphic body of " + base)
    cx.note("%d unsafe operations" % (n + m))
    traits(cx, lay, bounds)
    lifetimes(cx, stacks)
