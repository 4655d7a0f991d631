"""Packed fields, by a bit-provenance analysis of their accessors.

A query finds every getter/setter pair of a packed structure (clause headers and the reduction score).
Each setter is analysed with exact machine arithmetic from an arbitrary structure and value; on every
path, each bit that each getter then reads is traced to where it came from: the getter of the same
field must read the value's bits, cut off or saturated at the width of the field, and every other
getter must read the very bits it read before.  The header update for shrunk clauses must leave all
fields but the search position alone."""
from .common import *
from ..state import State
from .. import bits as B

RULE = "origin of every bit read after every store"
ASSUMES = ["stored values fit in a machine word of the field (32 bits)",
           "header words are unmarked (C16)"]
BOTH_PROFILES = False

LH = "starlit::prop::long::LongHeader"
SCORE = "starlit::search::reduce::Score"
SATURATE = {(LH, "glue"), (LH, "used"), (SCORE, "len")}
EXPECT = {LH: {"redundant", "protected", "glue", "used", "search_pos"},
          SCORE: {"len", "glue", "inv_used"}}
SHRINK = "<%s as starlit::clause_arena::ClauseHeader>::shrink_clause" % LH


def pairs(cx):
    """{type: {field: (getter, setter)}}"""
    out = {}
    for p, f in cx.lib.fns.items():
        n = f["name"]
        ins = f.get("inputs") or []
        if not n.startswith("set_") or f.get("generic") or len(ins) != 2 \
                or not ins[0].startswith("&mut "):
            continue
        ty = ins[0][5:]
        g = cx.lib.fns.get(p[:-len(n)] + n[4:])
        if g is None or len(g["inputs"]) != 1 or g["inputs"][0] not in ("&" + ty, ty):
            continue
        if g.get("output") != ins[1]:
            continue
        d = cx.lib.types.get(ty) or {}
        if d.get("k") == "adt" and d.get("size", 99) <= 16:
            out.setdefault(ty, {})[n[4:]] = (g["path"], p)
    return out


def get(cx, e, st, path, ty, val):
    """Bits read by a getter from a structure value, on each path."""
    key = cx.key(path)
    s = st.copy()
    a = val
    if cx.params(key)[0].startswith("&"):
        a = mk("sym", "self")
        s.mem[("P", a)] = val
    _, _, outs = cx.run(key, args={0: a}, st=s, pr={}, exact=True)
    return [(s2, B.bitwise(s2, r)) for s2, r in outs]


def start(cx, ty, obj):
    """Header words never have their top bit set (C16)."""
    st = State()
    d = cx.lib.types.get(ty) or {}
    for v in d.get("variants", ()):
        for f in v["fields"]:
            if "HeaderWord" in f["ty"]:
                for i in range(d["size"] // 4):
                    st.assume(t.le(t.sel(obj, I(i)), I(0x7fffffff)))
    return st


def trim(bs):
    while bs and bs[-1] == 0:
        bs = bs[:-1]
    return bs


def run(cx):
    ps = pairs(cx)
    for ty, names in EXPECT.items():
        cx.ob(names <= set(ps.get(ty, ())), "c20:fields:" + ty, "accessors of %s are missing: %s"
              % (ty, sorted(names - set(ps.get(ty, ())))), ty)
    for ty, fs in sorted(ps.items()):
        obj = mk("sym", "obj")
        base = {}
        for f, (g, _) in fs.items():
            rs = get(cx, None, start(cx, ty, obj), g, ty, obj)
            bs = [trim(b) for _, b in rs]
            base[f] = bs[0] if bs and all(b == bs[0] for b in bs) else None
            ok = base[f] is not None and all(b not in (0, 1) and b[0] == "b" for b in base[f]) and \
                len(set(base[f])) == len(base[f])
            cx.ob(ok, "c20:read:" + g, "%s does not read a fixed group of bits" % g, cx.where(g))
        for f, (g, sset) in sorted(fs.items()):
            width = len(base[f] or ())
            key = cx.key(sset)
            vty = cx.params(key)[1]
            for over in (False, True):
                v = mk("sym", "v")
                st = start(cx, ty, obj)
                arg = v
                if vty == "bool":
                    # both values
                    arg = t.TRUE if over else t.FALSE
                    want = [int(over)]
                    over = False
                else:
                    st.assume(t.le(ZERO, v))
                    st.assume(t.le(v, I(0xffffffff)))
                    top = (1 << width) - 1
                    if not st.assume(t.lt(I(top), v) if over else t.le(v, I(top))):
                        continue
                    want = B.bits(st, v)
                    if over:
                        want = [1] * width if (ty, f) in SATURATE else want[:width]
                p = mk("sym", "p")
                st.mem[("P", p)] = obj
                e, _, outs = cx.run(key, args={0: p, 1: arg}, st=st, pr={}, exact=True)
                cx.ob(bool(outs), "c20:" + sset, "%s does not return" % sset, cx.where(sset))
                for s, _ in outs:
                    post = e.rd(s, ("P", p), ())
                    for h, (hg, _) in sorted(fs.items()):
                        for s2, got in get(cx, e, s, hg, ty, post):
                            got = trim(got)
                            if h == f:
                                cx.ob(got == trim(list(want)), "c20:store:" + sset,
                                      "%s reads %s after %s of %s value" % (
                                          hg, desc(got), sset, "too large a" if over else "a"),
                                      cx.where(sset))
                            else:
                                cx.ob(got == base[h], "c20:keep:%s:%s" % (sset, h),
                                      "%s changes what %s reads" % (sset, hg), cx.where(sset))
    if LH in ps:
        obj, p = mk("sym", "obj"), mk("sym", "p")
        st = start(cx, LH, obj)
        st.mem[("P", p)] = obj
        key = cx.key(SHRINK)
        e, _, outs = cx.run(key, args={0: p}, st=st, pr={}, exact=True)
        cx.ob(bool(outs), "c20:shrink", "shrink_clause does not return", cx.where(SHRINK))
        for s, _ in outs:
            post = e.rd(s, ("P", p), ())
            for h, (hg, _) in sorted(ps[LH].items()):
                if h == "search_pos":
                    continue
                was = get(cx, e, start(cx, LH, obj), hg, LH, obj)
                for s2, got in get(cx, e, s, hg, LH, post):
                    cx.ob(all(trim(got) == trim(w) for _, w in was), "c20:shrink:" + h,
                          "shrinking a clause changes what %s reads" % hg, cx.where(SHRINK))


def desc(bs):
    out = []
    for b in bs[:8]:
        if b in (0, 1):
            out.append(str(b))
        elif b[0] == "b":
            out.append("%s.%d" % (b[1], b[2]))
        else:
            out.append("?")
    return "[" + " ".join(out) + (" ..." if len(bs) > 8 else "") + "]"
