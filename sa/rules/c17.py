"""Range of variables and literals, by exact abstract interpretation of every constructor.

A query over all functions finds each place that builds a Var or Lit, writes their representation,
calls an unsafe constructor or converts from another representation.  Each function that builds one
is analysed with exact machine arithmetic from arbitrary arguments (only Var and Lit arguments are
in range already): on every path the built value must be at most the documented maximum, in both
build profiles, so a check that only exists with debug assertions does not count.  Unsafe
constructors are called by safe code only with arguments proved in range or by clause storage, whose
words are the subject of C16.  The constants are compared with each other and with the bits that
clause storage uses itself."""
from .common import *
from ..state import State
from ..engine import Rule
from . import scan

RULE = "every construction of a Var or Lit in range on every path"
ASSUMES = ["literal words in clause storage are unmarked (C16)"]
BOTH_PROFILES = True

LIT, VAR = "starlit::lit::Lit", "starlit::lit::Var"
M = "starlit::lit::"
STORE = "starlit::clause_arena::"
CONVERT = ("::from_storage_unchecked", "::from_storage_unchecked_mut", "::into_storage_mut")


def consts(cx):
    return {c["path"]: int(c["val"]["int"]) for c in cx.lib.d["consts"]
            if isinstance(c.get("val"), dict) and "int" in c["val"]}


def bound(st, x, top):
    """Whether x <= top is established."""
    if st.decide(t.le(x, I(top))) is True:
        return True
    if x.op in ("xor", "or") and (top + 1) & top == 0:
        parts = list(x.args[0]) + [I(x.args[1])] if x.op == "xor" else list(x.args)
        return all(bound(st, y, top) for y in parts)
    if x.op == "shr" and x.args[1].op == "i":
        return bound(st, x.args[0], ((top + 1) << x.args[1].args[0]) - 1)
    if x.op == "and":
        return any(bound(st, y, top) for y in x.args)
    return False


def mentions(ty):
    return LIT in ty or VAR in ty


def run(cx):
    c = consts(cx)
    top = {VAR: c[M + "MAX_INDEX"], LIT: c[M + "MAX_CODE"]}
    cx.ob(c[M + "MAX_CODE"] == 2 * c[M + "MAX_INDEX"] + 1, "c17:max-code",
          "MAX_CODE is not 2 * MAX_INDEX + 1", "lit.rs")
    cx.ob(c[M + "MAX_VAR_COUNT"] == c[M + "MAX_INDEX"] + 1, "c17:max-count",
          "MAX_VAR_COUNT is not MAX_INDEX + 1", "lit.rs")
    for k, v in sorted(c.items()):
        if k.endswith("MAX_DIMACS"):
            cx.ob(v == c[M + "MAX_INDEX"] + 1, "c17:" + k, "%s is not MAX_INDEX + 1" % k, "lit.rs")
    mark = c[STORE + "LEN_MARKER"]
    cx.ob(c[M + "MAX_CODE"] < mark, "c17:spare", "the largest literal code reaches the marker bit "
          "of clause storage", "lit.rs")
    cx.ob(c[M + "MAX_INDEX"] <= 0xffffffff >> 2, "c17:spare-index", "the largest index leaves no "
          "two spare bits", "lit.rs")
    for ty in (LIT, VAR):
        priv(cx, ty)

    unsafe = {p for p, f in cx.lib.fns.items() if f.get("unsafe")}
    makers = {p for p in unsafe if cx.lib.fns[p].get("output") in (LIT, VAR)}
    generic = {p for p in unsafe if p.endswith(CONVERT)}
    todo = {}
    for key, b in scan.bodies(cx.lib):
        home = scan.base(b.path)
        for bl in b.blocks:
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                r = s[2]
                sp = s[3] if len(s) > 3 else None
                if r[0] == "agg" and r[1][0] == "adt" and base_ty(cx, r[1][1]) in top:
                    todo.setdefault(key, "constructs")
                if r[0] == "cast" and r[1] in ("Transmute", "PtrToPtr") and mentions(str(r[4])) \
                        and not mentions(str(r[3])):
                    ok = home.endswith(CONVERT) and home in unsafe
                    cx.ob(ok, "c17:cast:" + home, "%s converts %s to %s" % (b.path, r[3], r[4]),
                          "%s at %s" % (b.path, scan.line(sp)))
        for pl, use, sp in scan.places(b):
            fs = scan.fields_of(cx.lib, b, pl)
            if fs and fs[-1][0] in top and fs[-1][2] and use in ("write", "refmut"):
                todo[key] = "writes"
        for rec, tm, sp, bi in scan.calls(b):
            if not rec:
                continue
            q = scan.callee(rec)
            if q in makers or (rec["path"].endswith(CONVERT) and mentions(
                    b.locals[tm[3][0]][0] + str(rec.get("args")))):
                if home in unsafe or home.startswith(STORE):
                    continue
                todo.setdefault(key, "calls " + q)
            elif q not in cx.lib.fns and q.endswith(UNCHECKED) and mentions(str(rec.get("args"))
                                                                           + b.locals[tm[3][0]][0]):
                cx.ob(home in unsafe or home.startswith(STORE) or arrays(home), "c17:raw:" + home,
                      "%s creates literals by %s" % (b.path, q),
                      "%s at %s" % (b.path, scan.line(sp)))
        for rec in scan.fnvalues(b):
            if scan.callee(rec) in makers:
                cx.violation("c17:value:" + home, "%s passes on the unsafe %s" % (
                    b.path, rec["path"]), b.path)
    cx.ob(len(todo) >= 8, "c17:found", "hardly any constructors found", "lit.rs")
    seen = set()
    for key, why in todo.items():
        b = cx.lib.body(key)
        if scan.base(b.path) in unsafe:
            continue
        one(cx, key, b, top, makers, seen, why)
    reject(cx, c)


UNCHECKED = ("::transmute", "::transmute_copy", "::zeroed", "::assume_init", "::read_unaligned",
             "MaybeUninit::<T>::uninit")


def arrays(home):
    """The conversions of arrays are generic and unsafe or from a valid value."""
    return home.startswith("<[T; LEN] as starlit::util::transparent::ConvertStorage>")


def base_ty(cx, ty):
    d = cx.lib.types.get(ty) or {}
    return d.get("path") if d.get("k") == "adt" else ty


def priv(cx, ty):
    """The representation is private."""
    a = [x for x in cx.lib.d["adts"] if x["path"] == ty][0]
    fs = a.get("fields")
    if fs is None:
        d = cx.lib.types.get(ty) or {}
        fs = [f for v in d.get("variants", ()) for f in v.get("fields", ())]
    for f in fs or ():
        cx.ob(not f.get("pub"), "c17:private:" + ty, "the representation of %s is public" % ty,
              "lit.rs")


class InRange(Rule):
    def __init__(self, cx, top, makers, seen):
        self.cx, self.top, self.makers, self.seen = cx, top, makers, seen

    def on_aggregate(self, eng, st, fr, a, vs):
        if a[0] != "adt":
            return
        ty = base_ty(self.cx, a[1])
        if ty not in self.top or not vs or fr.body.path in self.makers:
            return
        self.cx.ob(bound(st, vs[0], self.top[ty]), "c17:" + scan.base(fr.body.path),
                   "%s can create a %s out of range" % (fr.body.path, ty.rsplit("::", 1)[1]),
                   at(fr, None) or fr.body.path)

    def on_call(self, eng, st, call):
        if call.path in self.makers and call.fr is not None \
                and call.fr.body.path not in self.makers:
            ty = self.cx.lib.fns[call.path]["output"]
            top = self.top[VAR] if "index" in call.path else self.top[ty]
            self.cx.ob(bound(st, call.args[0], top), "c17:" + scan.base(call.fr.body.path),
                       "%s calls %s without a check of its argument" % (
                           call.fr.body.path, call.path), at(call.fr, call.span))
        return None


def one(cx, key, b, top, makers, seen, why):
    st = State()
    args = {}
    for i in range(b.argc):
        ty = b.locals[i + 1][0]
        a = mk("sym", "a%d" % i)
        for w, m in top.items():
            if ty == w:
                st.assume(t.le(a, I(m)))
            elif ty in ("&" + w, "&mut " + w):
                st.assume(t.le(mk("pt", a), I(m)))
    rule = InRange(cx, top, makers, seen)
    e, a, outs = cx.run(key, st=st, rule=rule, pr={}, exact=True)
    for s, r in outs:
        ty = b.locals[0][0]
        if ty in top:
            cx.ob(bound(s, r, top[ty]), "c17:" + scan.base(b.path),
                  "%s can return a %s out of range" % (b.path, ty.rsplit("::", 1)[1]),
                  cx.where(b.path))
        for i in range(b.argc):
            ty = b.locals[i + 1][0]
            if ty.startswith("&mut ") and ty[5:] in top:
                cx.ob(bound(s, e.rd(s, ("P", a[i]), ()), top[ty[5:]]), "c17:" + b.path,
                      "%s can leave a value out of range" % b.path, cx.where(b.path))


def reject(cx, c):
    """Out-of-range arguments do not return."""
    n = mk("sym", "a0")
    idx, code, dim = c[M + "MAX_INDEX"], c[M + "MAX_CODE"], c[M + "MAX_DIMACS"]
    over = lambda m: [t.lt(I(m), n)]
    for path, bad in ((VAR + "::from_index", [over(idx)]), (LIT + "::from_index", [over(idx)]),
                      (LIT + "::from_code", [over(code)]),
                      (VAR + "::from_dimacs", [over(dim), [t.le(n, ZERO)]]),
                      (LIT + "::from_dimacs", [over(dim), [t.lt(n, I(-dim))], [t.eq(n, ZERO)]])):
        key = cx.key(path)
        for conds in bad:
            st = State()
            if all(st.assume(x) for x in conds):
                _, _, outs = cx.run(key, st=st, pr={}, exact=True)
                cx.ob(not outs, "c17:rejects:" + path, "%s accepts an argument out of range" % path,
                      cx.where(path))
