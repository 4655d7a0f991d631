"""Proof encoding, by an automaton over the written bytes.

The four proof-writing functions are analysed from an arbitrary clause while an automaton for the
DRAT grammar consumes what they write: a ghost counter holds the number of literals written so far
and, in the binary format, another ghost variable what is left to encode of the current literal.
Every byte (constant or computed, bit by bit) and every number written must be the one that the
format prescribes next for the literal that the counter points at, literals must be written until
the counter equals the length of the clause, and each path must end in the final state."""
from .common import *
from ..state import State
from .. import bits as BT
from .c17 import consts, M
from .c18 import settle
from . import scan

RULE = "every written byte against the DRAT automaton"
ASSUMES = ["flussab's writer passes bytes on in order and prints decimal numbers correctly",
           "literals are in the documented range (C17)"]
BOTH_PROFILES = False

D = "<starlit::proof::drat::%s<'_> as starlit::proof::Proof>::%s"
K, REST = ("G", "drat", "count"), ("G", "drat", "rest")
WRITE = ("flussab::DeferredWriter::<'a>::write_all_defer_err",
         "flussab::DeferredWriter::<'a>::write_all_defer_err_cold")


class Enc(AllRule):
    def __init__(self, cx, fmt, kind, lits, path):
        self.cx, self.fmt, self.lits, self.path = cx, fmt, lits, path
        self.head = {"text": {"add": b"", "delete": b"d "},
                     "binary": {"add": b"a", "delete": b"d"}}[fmt][kind]
        self.key = "c13:%s:%s:" % (fmt, kind)

    def first(self):
        return "head0" if self.head else "lit"

    # -- automaton
    def bad(self, what, msg, c):
        self.cx.ob(False, self.key + what, "%s %s" % (self.path, msg), at(c.fr, c.span))
        return []

    def phase(self, st, new=None):
        if new is not None:
            st.ms = (mk("ev", "phase", new),)
            return new
        return st.ms[0].args[1]

    def literal(self, eng, st):
        """Variable and polarity bit of the next literal."""
        k = eng.getbase(st, K)
        v = resolve(st, t.sel(self.lits.args[0], k))
        q = resolve(st, t.band(t.sel(self.lits.args[1], k), ONE))
        st.assume(t.le(v, I(consts(self.cx)[M + "MAX_INDEX"])))
        return k, v, q

    def room(self, eng, st):
        """Cases (state, whether a literal is left)."""
        k = eng.getbase(st, K)
        return eng.fork(st, t.lt(k, t.length(self.lits)))

    def step(self, eng, st, c, k):
        eng.wr(st, K, (), t.add(k, ONE), c.fr, c.span)

    def number(self, eng, st, c, v):
        """A decimal number is written."""
        if self.fmt != "text":
            return self.bad("digits", "writes decimal digits", c)
        if st.decide(t.eq(v, ZERO)) is True:
            return self.byte(eng, st, c, I(48))
        if self.phase(st) != "lit":
            return self.bad("digits", "writes a number where the format has none", c)
        out = []
        if not norm(st):
            return out
        for s, more in self.room(eng, st):
            if not more:
                self.bad("digits", "writes a number after the last literal", c)
                continue
            k, x, q = self.literal(eng, s)
            for s2, p in eng.fork(s, t.eq(q, ONE)):
                n = t.add(x, ONE)
                want = n if p else t.sub(ZERO, n)
                self.cx.ob(same(s2, v, want), self.key + "number", "%s writes %s for the literal "
                           "of variable %s" % (self.path, v, x), at(c.fr, c.span))
                self.step(eng, s2, c, k)
                self.phase(s2, "space")
                out.append(s2)
        return out

    def byte(self, eng, st, c, b):
        if not norm(st):
            return []
        ph = self.phase(st)
        if ph.startswith("head"):
            i = int(ph[4:])
            self.const(st, c, b, self.head[i])
            self.phase(st, "head%d" % (i + 1) if i + 1 < len(self.head) else "lit")
            return [st]
        if ph == "end":
            return self.bad("end", "writes something after the end of the step", c)
        if self.fmt == "text":
            nxt = {"space": (32, "lit"), "newline": (10, "end")}
            if ph in nxt:
                self.const(st, c, b, nxt[ph][0])
                self.phase(st, nxt[ph][1])
                return [st]
            out = []
            for s, more in self.room(eng, st):
                if more:
                    self.bad("early", "can end the step before the last literal", c)
                    continue
                self.const(s, c, b, 48)
                self.phase(s, "newline")
                out.append(s)
            return out
        if ph == "more":
            return self.chunk(eng, st, c, b, eng.getbase(st, REST))
        out = []
        for s, more in self.room(eng, st):
            if not more:
                self.const(s, c, b, 0)
                self.phase(s, "end")
                out.append(s)
                continue
            k, x, q = self.literal(eng, s)
            want = t.add(t.mul(I(2), t.add(x, ONE)), t.sub(ONE, q))
            out.extend(self.chunk(eng, s, c, b, want))
        return out

    def chunk(self, eng, st, c, b, rest):
        """Seven bits of what is left of the literal."""
        out = []
        rest = resolve(st, rest)
        b = resolve(st, b)
        for s, more in eng.fork(st, t.le(I(128), rest)):
            want = BT.bits(s, resolve(s, rest), 7) + [int(more)]
            got = BT.bits(s, resolve(s, b), 8)
            if got != want:
                # a case that contradicts the continuation bit is impossible on correct code
                want2 = BT.bits(s, rest, 7) + [int(more)]
                ok = got == want2
            else:
                ok = True
            self.cx.ob(ok, self.key + "byte", "%s writes %s where the next bits of the literal are "
                       "those of %s" % (self.path, b, rest), at(c.fr, c.span))
            if more:
                eng.wr(s, REST, (), t.shr(rest, I(7)), c.fr, c.span)
                self.phase(s, "more")
            else:
                k = eng.getbase(s, K)
                self.step(eng, s, c, k)
                eng.wr(s, REST, (), ZERO, c.fr, c.span)
                self.phase(s, "lit")
            out.append(s)
        return out

    def const(self, st, c, b, want):
        self.cx.ob(b.op == "i" and b.args[0] == want or st.decide(t.eq(b, I(want))) is True,
                   self.key + "const", "%s writes %s where the format has %r"
                   % (self.path, b if b.op != "i" else repr(chr(b.args[0])), chr(want)),
                   at(c.fr, c.span))


def norm(st):
    """States everything known in terms of the loop variables chosen to stand for the others; False
    if that is impossible."""
    for f, val in list(st.facts.items()):
        # what is known about a shifted number, in terms of the number
        k, d = t.lin_parts(f.args[0]) if f.op in ("eq", "le") else (0, {})
        if len(d) != 1:
            continue
        (x, m), = d.items()
        if x.op != "shr" or x.args[1].op != "i" or m not in (1, -1):
            continue
        n, w = x.args[0], x.args[1].args[0]
        c = -k * m
        lo, hi = val and (f.op == "eq" or m == -1), val and (f.op == "eq" or m == 1)
        if f.op == "eq" and not val and c == 0:
            lo, c = True, 1
        for y, j in [(n, w)] + ([(t.shr(n, I(w - 7)), 7)] if w > 7 else []):
            if lo and not st.assume(t.le(I(c << j), y)) or \
                    hi and not st.assume(t.le(y, I((c << j) + (1 << j) - 1))):
                return False
    up = roots(st)
    for f, val in list(st.facts.items()):
        m = {y: up[y] for y in atoms(f, ("phi", "sym")) if y in up}
        if m:
            g = t.subst(f, m)
            if g is not f and st.assume(g if val else t.notb(g)) is False:
                return False
            if val and g.op in ("eq", "le"):
                st._add_le(g.args[0])
                if g.op == "eq":
                    st._add_le(t.scale(g.args[0], -1))
                st.facts[g] = True
    return True


def roots(st):
    """Loop variables known to be equal to others."""
    up = {}

    def root(y):
        while y in up:
            y = up[y]
        return y
    for f, val in st.facts.items():
        if val and f.op == "eq":
            k, d = t.lin_parts(f.args[0])
            if k == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1] \
                    and all(z.op in ("phi", "sym") for z in d):
                y, z = sorted((root(q) for q in d), key=lambda q: q.id)
                if y is not z:
                    up[z] = y
    return {z: root(z) for z in up}


def resolve(st, x):
    """Replaces loop variables by others they are known to be equal to and drops truncations that
    do nothing."""
    up = roots(st)
    m = {y: up[y] for y in atoms(x, ("phi", "sym")) if y in up}
    x = t.subst(x, m) if m else x
    m = {}
    for y in atoms(x, ("tr",)):
        if st.decide(t.le(y.args[0], I((1 << y.args[1]) - 1))) is True \
                and st.decide(t.le(ZERO, y.args[0])) is True:
            m[y] = y.args[0]
    return t.subst(x, m) if m else x


def atoms(x, ops):
    out = []
    todo = [x]
    while todo:
        y = todo.pop()
        if not isinstance(y, t.T):
            if isinstance(y, tuple):
                todo.extend(y)
            continue
        if y.op in ops:
            out.append(y)
        todo.extend(y.args)
    return out


def same(st, a, b):
    a, b = resolve(st, settle(st, a)), resolve(st, settle(st, b))
    return a is b or st.decide(t.eq(a, b)) is True


def prims(cx, mon):
    def write(eng, st, c):
        data = eng.read(st, c.args[1])
        sts = [st]
        if data.op == "arr":
            bs = list(data.args)
        elif data is t.VNIL:
            bs = []
        else:
            mon.bad("data", "writes data that is not built from single bytes", c)
            return []
        for b in bs:
            sts = [s2 for s in sts for s2 in mon.byte(eng, s, c, b)]
        return [(s, t.UNIT) for s in sts]

    def digits(eng, st, c):
        return [(s, t.UNIT) for s in mon.number(eng, st, c, c.args[1])]
    pr = {w: write for w in WRITE}
    pr["flussab::write::text::ascii_digits"] = digits
    return pr


def run(cx):
    for fmt, ty in (("text", "Drat"), ("binary", "BinaryDrat")):
        for kind in ("add", "delete"):
            path = D % (ty, kind + "_clause")
            key = cx.key(path)
            i = cx.param(key, "[starlit::lit::Lit]")
            a = mk("sym", "lits")
            lits = mk("lits", mk("sym", "vars"), mk("sym", "signs"))
            mon = Enc(cx, fmt, kind, lits, path)
            st = State()
            st.mem[("P", a)] = lits
            st.mem[K] = ZERO
            st.mem[REST] = ZERO
            mon.phase(st, mon.first())
            e, _, outs = cx.run(key, args={i: a}, st=st, rule=mon, pr=prims(cx, mon), exact=True)
            cx.ob(bool(outs), mon.key + "returns", "%s does not return" % path, cx.where(path))
            for s, _ in outs:
                cx.ob(mon.phase(s) == "end", mon.key + "end", "%s can return before the step is "
                      "complete (%s)" % (path, mon.phase(s)), cx.where(path))
    # nobody else writes into the proof
    cm = scan.callmap(cx.lib)
    known = {D % (ty, k) for ty in ("Drat", "BinaryDrat")
             for k in ("add_clause", "delete_clause", "flush")}
    for w in WRITE + ("flussab::write::text::ascii_digits",):
        bad = scan.only_from(cm, w, known) - {w}
        cx.ob(not bad, "c13:others", "the proof is also written by %s" % ", ".join(sorted(bad)),
              ", ".join(sorted(bad)))
