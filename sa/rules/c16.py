"""Marker discipline of clause storage, by abstract interpretation of every operation that changes it.

Every public safe operation on clause storage is analysed, with what it calls, from an arbitrary
state; the words at its end are compared with those at its beginning.  An added clause is appended
behind all others as header, marked length and exactly its literals; any other operation leaves all
words alone except header words (which stay unmarked), and the length word of a clause that was found
valid, which keeps the marker with a smaller positive length, or with length zero while the next word
holds the old length.  Compaction is C37's part.  Every function that makes or writes a header word,
in any generic instance, is analysed bit by bit: the top bit of what it makes is zero."""
from .arena import *
from .. import bits as B

RULE = "words changed by each storage operation; top bit of every header word made"
ASSUMES = ["literals are within the range of literals (C17)", "compaction is the part of C37"]
BOTH_PROFILES = False


class Writes(Watch):
    def check(self, eng, st, fr, lo, n, what, span):
        pass


def run(cx):
    ar = Arena(cx)
    cx.ob(ar.ok, "c16:storage", "the clause storage is not recognised")
    if not ar.ok:
        return
    kinds = set()
    for path, f, key in ar.methods():
        if not f["pub"]:
            continue
        mutable = any(x.startswith("&mut ") and ar_name(x) for x in f.get("inputs") or ())
        if not mutable or f["unsafe"]:
            continue
        if key is None:
            cx.ob(False, "c16:instance:" + path, "%s cannot be analysed" % path, cx.where(path))
            continue
        if "starlit::clause_arena::ClauseRefGcMap" in (f.get("output") or ""):
            kinds.add("compact")
            continue
        kinds.add(method(cx, ar, path, f, key))
    cx.ob({"add", "other", "compact"} <= kinds, "c16:methods", "the operations of the storage are "
          "not recognised")
    header_words(cx)


def ar_name(ty):
    return ARENA in ty


def method(cx, ar, path, f, key):
    rule = Writes(cx, ar, path)
    ps = cx.params(key)
    me = [i for i, ty in enumerate(ps) if ar_name(ty)][0]
    obj = mk("pt", mk("sym", "a%d" % me))
    rule.base = P(mk("sym", "a%d" % me))
    before = t.fld(obj, ar.buf, ar.n)
    st = State()
    hdr = [i for i, ty in enumerate(ps) if ty == ar.header]
    lits = [i for i, ty in enumerate(ps) if ty == "&[starlit::lit::Lit]"]
    for i in hdr:
        st.assume(t.eq(t.length(mk("sym", "a%d" % i)), I(ar.H)))
    e = cx.engine(rule, {})
    e.words = before
    e, a, outs = cx.run(key, st=st, rule=rule, eng=e)
    add = bool(hdr) and bool(lits) and "Result<" + REF in (f.get("output") or "")
    w = cx.where(path)
    for s, r in outs:
        after = e.rd(s, rule.base, (("f", ar.buf, ar.n),))
        if add and s.decide(t.eq(t.disc(r), ZERO)) is not False:
            cx.ob(added(s, ar, before, after, a[hdr[0]], a[lits[0]], r), "c16:add:" + path,
                  "%s can return without the clause having been appended as header, marked length "
                  "and its literals" % path, w)
        elif after is not before:
            bad = changed(s, ar, before, after, a, ps)
            cx.ob(not bad, "c16:words:" + path, "%s can %s" % (path, bad), w)
        else:
            cx.ob(True, "c16:same:" + path, "", w)
    return "add" if add else "other"


def added(s, ar, before, after, hdr, lits, r):
    c = t.vfld(r, 0, 0)
    lits = mk("pt", lits)
    n, D = t.length(lits), s.decide
    if not s.same(c, t.length(before)) or D(t.le(n, I(MASK))) is not True or \
            D(t.le(ONE, n)) is not True or D(t.le(c, I((1 << 32) - 1))) is not True:
        return False
    s = s.copy()
    L = t.add(c, I(ar.H))
    w = word(s, after, L)
    got = decode(s, w)
    ok = got is not None and eqv(s, got, n)
    ok = ok and s.decide(t.eq(count(after), t.add(t.add(L, ONE), n))) is True
    i, j = mk("sym", "before"), mk("sym", "within")
    s.assume(t.le(ZERO, i))
    s.assume(t.lt(i, c))
    s.assume(t.le(ZERO, j))
    s.assume(t.lt(j, n))
    D = s.decide
    ok = ok and word(s, after, i) is t.sel(before, i, D)
    v = word(s, after, t.add(t.add(L, ONE), j))
    ok = ok and v.op == "sel" and v.args[0] is lits and s.decide(t.eq(v.args[1], j)) is True
    h = word(s, after, c)
    return bool(ok) and (h is hdr or all(word(s, after, t.add(c, I(k))) is t.sel(hdr, I(k))
                                         for k in range(ar.H)))


def changed(s, ar, before, after, a, ps):
    """What is wrong with the words that changed, if anything."""
    at_, x = {}, after
    while x is not before:
        if x.op != "store":
            return "change the storage in an unrecognised way"
        at_.setdefault(x.args[1], None)
        x = x.args[0]
    D, H = s.decide, I(ar.H)
    done = set()
    for i in at_:
        for c in [t.sub(i, I(k)) for k in range(ar.H + 2)] + [x for x, ty in zip(a, ps) if ty == REF]:
            s1 = ar.establish(s, before, c)
            if s1 is None:
                continue
            L = t.add(c, H)
            old = t.band(t.sel(before, L, s1.decide), I(MASK))
            new = t.sel(after, i, s1.decide)
            if s1.same(i, L):
                if s1.same(new, t.sel(before, L, s1.decide)):
                    break
                n = decode(s1, new)
                if n is None:
                    return "store a word without marker or with a length that does not fit as length"
                if s1.decide(t.eq(n, ZERO)) is True:
                    nxt = t.sel(after, t.add(L, ONE), s1.decide)
                    if s1.decide(t.lt(ZERO, old)) is not True or not eqv(s1, nxt, old):
                        return "mark a clause as deleted without leaving its length behind"
                    done.add(t.add(L, ONE))
                elif s1.decide(t.le(ONE, n)) is not True or s1.decide(t.le(n, old)) is not True:
                    return "store a length beyond that of the clause"
                break
            if s1.decide(t.le(c, i)) is True and s1.decide(t.lt(i, L)) is True:
                was = t.sel(before, i, s1.decide)
                for k in range(ar.H):
                    v = t.sel(new, I(k), s1.decide) if new.op == "store" else new
                    if v is not was and v is not t.sel(was, I(k)) and B.bits(s1, v, 32)[31] != 0:
                        return "set the top bit of a header word"
                break
            if s1.decide(t.le(t.add(L, ONE), i)) is True and \
                    s1.decide(t.lt(i, t.add(t.add(L, ONE), old))) is True:
                if new is old or B.bits(s1, new, 32)[31] == 0 or new is t.sel(before, i, s1.decide):
                    break
                return "set the top bit of a literal"
        else:
            return "change words of the storage that are not known to belong to a clause"
    return None


def decode(s, w):
    """The length in a word that is a marked length, or None."""
    if w.op == "or" and any(x is I(MARK) for x in w.args):
        n = [x for x in w.args if x is not I(MARK)][0]
    else:
        n = t.sub(w, I(MARK))
    return n if s.decide(t.le(n, I(MASK))) is True and s.decide(t.le(ZERO, n)) is not False and \
        (n.op != "lin" or s.decide(t.le(I(MARK), w)) is True) else None


# ------------------------------------------------------------------ header words
def header_words(cx):
    lib = cx.lib
    d = lib.types.get(WORD)
    if not cx.ob(d is not None and len(d["variants"][0]["fields"]) == 1, "c16:word",
                 "the header word type is not recognised"):
        return
    cx.ob(not d["variants"][0]["fields"][0]["pub"], "c16:private", "the contents of header words are "
          "accessible from everywhere")
    made = {}
    for crate in (cx.lib, cx.cli):
        for key, body in scan.bodies(crate):
            if touches(body) and not lib_fn(crate, key).get("unsafe"):
                made[key] = (crate, body)
    for key, (crate, body) in sorted(made.items()):
        header_word(cx, key, body)
    cx.ob(len(made) >= 3, "c16:makers", "the functions that make header words are not recognised")


def lib_fn(crate, key):
    return crate.fns.get(key.split(" <")[0]) or crate.fns.get(key) or {}


def touches(body):
    for bl in body.blocks:
        for x in bl["s"]:
            if x[0] != "=":
                continue
            if x[2][0] == "agg" and x[2][1][0] == "adt" and x[2][1][1] == WORD:
                return True
            if into(body, x[1]) or (x[2][0] in ("ref", "raw") and "mut" in str(x[2][1]).lower()
                                    and into(body, x[2][2])):
                return True
    return False


def into(body, place):
    """Whether a place is the contents of a header word."""
    ty = body.locals[place[0]][0]
    last = None
    for p in place[1:]:
        if p[0] == "d":
            ty = ty.lstrip("&").replace("mut ", "", 1) if ty.startswith("&") else ty
        elif p[0] == "f":
            last, ty = ty, p[2]
        else:
            ty = None
        ty = ty or "?"
    return last == WORD


def header_word(cx, key, body):
    w = body.path
    gen = [g for g in args(key) if not g.isdigit()]
    consts = [g for g in gen if g.isupper()]
    if len(consts) > 2:
        cx.ob(False, "c16:generic:" + key, "%s has too many parameters" % key, w)
        return
    ranges = [()] if not consts else \
        [(i,) for i in range(34)] if len(consts) == 1 else \
        [(i, j) for i in range(33) for j in range(33) if i + j <= 33]
    for vals in ranges:
        st = State()
        e = cx.engine(Rule(), {}, exact=True)
        e.generics = dict(zip(consts, vals))
        ps = cx.params(key)
        for i, ty in enumerate(ps):
            x = mk("sym", "a%d" % i)
            if ty.endswith(WORD):
                for v in (x, mk("pt", x)):
                    st.assume(t.le(v, I(MASK)))
        try:
            e, a, outs = cx.run(key, st=st, exact=True, eng=e)
        except KeyError:
            cx.ob(False, "c16:word:" + key, "%s cannot be analysed" % key, w)
            return
        for s, r in outs:
            res = [r] if (cx.lib.fns.get(key.split(" <")[0]) or {}).get("output") in (WORD, "Self") \
                or body.locals[0][0] == WORD else []
            for i, ty in enumerate(ps):
                if ty == "&mut " + WORD:
                    res.append(e.getbase(s, P(a[i])))
            ok = all(B.bits(s, v, 32)[31] == 0 for v in res)
            cx.ob(ok and not refs(r, []), "c16:word:" + key, "%s can set the top bit of a header word%s" % (
                key, " with %s = %s" % (", ".join(consts), vals) if consts else ""), w)


def args(key):
    if " <" not in key:
        return []
    return [x.strip() for x in key.split(" <", 1)[1].rstrip(">").split(",")]
