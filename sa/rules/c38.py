"""Storage accounting and iteration, by abstract interpretation of every storage operation.

Each public safe operation is analysed from an arbitrary state: the counter of released words grows
exactly by the words that the changes to length words release (literals dropped by a shrink; literals,
length word and header of a clause that becomes deleted, once), and by nothing else; the reported
utilization is the number of words and that number without the released ones.  Iteration is compared
with a reference walk over the words, advanced at each back edge: unmarked words are passed one at a
time, a deleted clause as a whole, and nothing else is passed over; what is returned is the clause the
walk has found, and nothing is returned only when the walk has left the storage."""
from .arena import *
from . import c16, c34

RULE = "released words per changed length word; reference walk at every back edge of the iteration"
ASSUMES = ["a deleted clause's next word holds its old length (C16)", "compaction is the part of C37"]
BOTH_PROFILES = False

WALK = ("G", "walk")


def run(cx):
    ar = Arena(cx)
    cx.ob(ar.ok and ar.cnt is not None, "c38:storage", "the clause storage is not recognised")
    if not ar.ok or ar.cnt is None:
        return
    kinds = set()
    done = set()
    for path, f, key in ar.methods():
        ins = f.get("inputs") or ()
        if key is None or f["unsafe"]:
            continue
        if f.get("output") == "std::option::Option<%s>" % REF and len(ins) == 2 and \
                ins[1].startswith("&mut std::option::Option<"):
            kinds.add("iterate")
            for first in (True, False):
                iterate(cx, ar, path, key, first)
        elif (f.get("output") or "").endswith("::Utilization"):
            kinds.add("report")
            report(cx, ar, path, key)
        elif "ClauseRefGcMap" in (f.get("output") or ""):
            done.add(path)
        elif f["pub"] and any(x.startswith("&mut ") and ARENA in x for x in ins):
            kinds.add(counting(cx, ar, path, f, key))
            done.add(path)
    cx.ob({"add", "other", "iterate", "report"} <= kinds, "c38:methods", "the operations of the "
          "storage are not recognised")
    cm = scan.callmap(cx.lib)
    names = [x["name"] for x in cx.lib.types[ar.ty]["variants"][0]["fields"]]
    for i in (ar.buf, ar.cnt):
        for p in sorted(c34.writers(cx, ARENA, names[i])):
            rec = cx.lib.fns.get(p) or {}
            bad = set() if rec.get("unsafe") else scan.only_from(cm, p, done)
            cx.ob(not bad, "c38:writer:%s:%s" % (names[i], p), "%s is changed in %s" % (
                names[i], p), cx.where(p))


# ---------------------------------------------------------------- counting
def counting(cx, ar, path, f, key):
    rule = Watch(cx, ar, path)
    ps = cx.params(key)
    me = [i for i, ty in enumerate(ps) if ARENA in ty][0]
    obj = mk("pt", mk("sym", "a%d" % me))
    rule.base = P(mk("sym", "a%d" % me))
    before, g0 = ar.words(None, obj), ar.garbage(None, obj)
    e = cx.engine(rule, {})
    e.words = before
    e, a, outs = cx.run(key, st=State(), rule=rule, eng=e)
    add = "Result<" + REF in (f.get("output") or "")
    w = cx.where(path)
    for s, r in outs:
        after = e.rd(s, rule.base, (("f", ar.buf, ar.n),))
        g1 = e.rd(s, rule.base, (("f", ar.cnt, ar.n),))
        if add:
            d = ZERO
        else:
            d = released(s, ar, before, after, [x for x, ty in zip(a, ps) if ty == REF])
            if not cx.ob(d is not None, "c38:change:" + path, "%s changes the storage in a way that "
                         "cannot be accounted for" % path, w):
                continue
        for x, ty in zip(a, ps):
            if ty == REF:
                s = ar.establish(s, before, x) or s
        cx.ob(s.decide(t.eq(g1, t.add(g0, d))) is True, "c38:count:" + path, "the number of "
              "released words is wrong after %s" % path, w)
    return "add" if add else "other"


def released(s, ar, before, after, refs_):
    """Words released by the changed length words."""
    at_, x = {}, after
    while x is not before:
        if x.op != "store":
            return None
        at_.setdefault(x.args[1], None)
        x = x.args[0]
    total, done = ZERO, []
    for i in at_:
        for c in [t.sub(i, I(ar.H))] + refs_:
            L = t.add(c, I(ar.H))
            if not s.same(i, L) or ar.establish(s, before, c) is None:
                continue
            if any(s.same(L, d) for d in done):
                break
            done.append(L)
            s1 = ar.establish(s, before, c)
            old = t.band(t.sel(before, L, s1.decide), I(MASK))
            n = c16.decode(s1, t.sel(after, L, s1.decide))
            if n is None:
                return None
            if s1.decide(t.eq(n, ZERO)) is True:
                if s1.decide(t.eq(old, ZERO)) is True:
                    break
                if s1.decide(t.eq(old, ZERO)) is not False:
                    return None
                total = t.add(total, t.add(old, I(ar.H + 1)))
            elif s1.decide(t.lt(ZERO, n)) is True:
                total = t.add(total, t.sub(old, n))
            else:
                return None
            break
    return total


def report(cx, ar, path, key):
    e, a, outs = cx.run(key, rule=Rule(), pr={})
    obj = mk("pt", a[0])
    n, g = t.length(ar.words(e, obj)), ar.garbage(e, obj)
    ty = cx.lib.body(key).locals[0][0]
    names = [x["name"] for x in cx.lib.types[ty]["variants"][0]["fields"]]
    for s, r in outs:
        got = dict(zip(names, [t.fld(r, i, len(names)) for i in range(len(names))]))
        cx.ob(s.same(got.get("allocated", ZERO), n), "c38:allocated", "the number of allocated words "
              "is not reported", cx.where(path))
        cx.ob(s.same(got.get("used", ZERO), t.sub(n, g)), "c38:used", "the number of used words is "
              "not that of all words without the released ones", cx.where(path))


# ---------------------------------------------------------------- iteration
class Walk(Rule):
    def __init__(self, cx, ar, base):
        self.cx, self.ar, self.base = cx, ar, base

    def words(self, eng, st):
        return eng.rd(st, self.base, (("f", self.ar.buf, self.ar.n),))

    def known(self, st, W, pos):
        """The position under which the state knows the word at a position."""
        todo, seen = list(st.facts), set()
        while todo:
            x = todo.pop()
            if not isinstance(x, t.T) or x in seen:
                continue
            seen.add(x)
            if x.op == "sel" and x.args[0] is W and st.decide(t.eq(x.args[1], pos)) is True:
                return x.args[1]
            for y in x.args:
                todo.extend(z for z in (y if isinstance(y, tuple) else (y,)))
                for z in (y if isinstance(y, tuple) else ()):
                    if isinstance(z, tuple):
                        todo.extend(z)
        return pos

    def step(self, eng, st):
        """Advances the reference walk as far as its way is known; the number of steps."""
        W, H = self.words(eng, st), I(self.ar.H)
        for k in range(8):
            pos = self.known(st, W, st.mem[WALK])
            if st.decide(t.lt(pos, t.length(W))) is not True:
                return k
            w = t.sel(W, pos, st.decide)
            m = self.ar.marked(st, w)
            if m is False:
                st.mem[WALK] = t.add(pos, ONE)
            elif m is True and (st.decide(t.eq(w, I(MARK))) is True or
                                st.decide(t.eq(t.band(w, I(MASK)), ZERO)) is True):
                st.mem[WALK] = t.add(t.add(t.add(pos, t.sel(W, t.add(pos, ONE), st.decide)), H), ONE)
            else:
                return k
        return 8

    def on_backedge(self, eng, st, fr, h):
        k = self.step(eng, st)
        self.cx.ob(k > 0, "c38:walk", "the iteration goes on although it has reached a clause that "
                   "is not known to be deleted", at(fr, fr.body.blocks[h]["sp"]))

    def loop_candidates(self, eng, fr, h, head, phis, states):
        out = []
        g = [ph for loc, ph in phis.items() if loc and loc[0] == WALK]
        for loc, ph in phis.items():
            if loc[0] == WALK:
                continue
            for x in g:
                for d in (ZERO, I(self.ar.H), ONE, I(self.ar.H + 1)):
                    out.append(t.eq(t.sub(x, ph), d))
                    out.append(t.eq(t.sub(ph, x), d))
        return out


def iterate(cx, ar, path, key, first):
    ps = cx.params(key)
    me = [i for i, ty in enumerate(ps) if ARENA in ty][0]
    arg_ = [i for i, ty in enumerate(ps) if "Option" in ty][0]
    base = P(mk("sym", "a%d" % me))
    rule = Walk(cx, ar, base)
    words = ar.words(None, mk("pt", mk("sym", "a%d" % me)))
    st = State()
    c = mk("sym", "clause")
    st.mem[P(mk("sym", "a%d" % arg_))] = models.NONE if first else models.some(c)
    H = I(ar.H)
    start = H if first else t.add(t.add(t.add(t.add(c, H), ONE), ar.clen(words, c)), H)
    st.mem[WALK] = start
    if not first:
        ar.valid(st, words, c)
    e, a, outs = cx.run(key, st=st, rule=rule, pr={})
    w = cx.where(path)
    cx.ob(bool(outs), "c38:returns", "the iteration never returns", w)
    for s, r in outs:
        rule.step(e, s)
        pos = rule.known(s, words, s.mem[WALK])
        for s1, found in e.fork(s, t.eq(t.disc(r), ONE)):
            if found:
                wd = t.sel(words, pos, s1.decide)
                ok = s1.decide(t.eq(t.add(t.vfld(r, 1, 0), H), pos)) is True and \
                    ar.marked(s1, wd) is True and \
                    (s1.decide(t.eq(t.band(wd, I(MASK)), ZERO)) is False or
                     s1.decide(t.eq(wd, I(MARK))) is False)
                cx.ob(ok, "c38:found", "the iteration returns something else than the next clause "
                      "that is not deleted", w)
            else:
                cx.ob(s1.decide(t.le(t.length(words), pos)) is True, "c38:end", "the iteration ends "
                      "before all clauses were visited", w)
            v = e.getbase(s1, P(a[arg_]))
            cx.ob(v is r or eqv(s1, v, r), "c38:position", "the position of the iteration is not "
                  "the clause that is returned", w)
