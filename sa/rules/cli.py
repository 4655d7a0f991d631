"""Abstract interpretation of the command line tool's main function, shared by C12, C25 and C26.

Strings are sequences of pieces of text and displayed values; what is printed is read by an automaton
of the output format.  Opening files, parsing, the solver's operations and the end of the process are
events, whose order and outcomes are compared with the properties on every abstract path."""
from .common import *
from .. import prims
from ..terms import VNIL
from ..models import NONE, some
from . import scan

MAIN = "starlit::main"
SV = "starlit::solver::Solver::<'a>::"
NEXT = ("G", "asked")
ARGS = mk("sym", "ARGS")
LIT = "starlit::lit::Lit"


def text(s):
    return mk("txt", s)


class Cli(AllRule):
    """Monitor of one run of the tool."""
    all_drops = True

    def __init__(self, cx):
        self.cx = cx
        self.finals = 0
        self.printed = 0
        self.tags = 0

    def ob(self, ok, key, msg, c):
        self.cx.ob(ok, key, msg, at(c.fr, c.span) if c is not None else MAIN)

    # ---------------------------------------------------------- strings
    def on_drop(self, eng, st, fr, base, path, ty, sp):
        if ty == "std::string::String":
            self.lost(eng, st, eng.rd(st, base, path), None, fr, sp)
            eng.wr(st, base, path, VNIL, None, None)
            return [st]
        if "BufWriter<" in ty or "LineWriter<" in ty:
            forget(st, "buffered")
        return None

    def lost(self, eng, st, v, upto, fr, sp):
        """The text v (except for its prefix upto) is thrown away."""
        while v is not upto and v.op == "push":
            v = v.args[0]
        if v is upto or v.op in ("nil", "arr"):
            return
        if st.decide(t.eq(t.length(v), ZERO)) is True:
            return
        if not self.model_text(v):
            return
        ok = any(m.args[1] is v for m in events(st, "base"))
        self.cx.ob(ok, "c25:lost", "collected output is thrown away without being printed",
                   at(fr, sp))

    def model_text(self, v):
        """Whether this is text that a loop has collected."""
        return v.op == "phi" and isinstance(v.args[0][0], int)

    def pieces(self, eng, st, v):
        """The pieces of a text, the first possibly an unknown sequence of values."""
        out = []
        while True:
            if v.op == "push":
                out.append(v.args[1])
                v = v.args[0]
            elif v.op == "cat":
                out += reversed(v.args[1:])
                v = v.args[0]
            else:
                break
        if v.op == "arr":
            out += reversed(self.chars(v.args))
        elif v is not VNIL and v.op != "nil":
            out.append(mk("base", v))
        return out[::-1]

    def chars(self, xs):
        if xs and all(x.op == "i" for x in xs):
            return [text(bytes(x.args[0] for x in xs).decode("latin1"))]
        return list(xs)

    def string_at(self, eng, st, ptr):
        v = eng.read(st, ptr)
        if v.op == "ref":
            v = eng.read(st, v)
        return v

    def args_of(self, eng, st, tmpl, args):
        """The pieces of a format template applied to its arguments."""
        b = eng.read(st, tmpl)
        if b.op != "arr" or any(x.op != "i" for x in b.args):
            return [mk("odd", b)]
        data = [x.args[0] for x in b.args]
        av = eng.read(st, args)
        out, i, n = [], 0, 0
        while i < len(data):
            x = data[i]
            i += 1
            if x == 0:
                break
            if x < 0x80:
                out.append(text(bytes(data[i:i + x]).decode("latin1")))
                i += x
            elif x == 0x80:
                k = data[i] + 256 * data[i + 1]
                out.append(text(bytes(data[i + 2:i + 2 + k]).decode("latin1")))
                i += 2 + k
            elif x == 0xC0:
                a = t.sel(av, I(n), st.decide)
                n += 1
                if a.op == "disp" and a.args[0] == "str":
                    out += self.pieces(eng, st, a.args[1])
                else:
                    out.append(a)
            else:
                a = t.sel(av, I(n), st.decide)
                if x & 0x08:
                    k = i + (4 if x & 1 else 0) + (2 if x & 2 else 0) + (2 if x & 4 else 0)
                    a = t.sel(av, I(data[k] + 256 * data[k + 1]), st.decide)
                plain = x == 0xC8
                n += 1
                i += (4 if x & 1 else 0) + 2 * bin(x & 0x0e).count("1")
                if plain and a.op == "disp" and a.args[0] == "str":
                    out += self.pieces(eng, st, a.args[1])
                else:
                    out.append(a if plain else mk("odd", a))
        return out

    def extend(self, v, ps):
        for p in ps:
            if p.op == "base" and v is VNIL:
                v = p.args[0]
            elif p.op != "txt" or p.args[0]:
                v = mk("push", v, p)
        return v

    # ---------------------------------------------------------- output
    def out(self, eng, st, ps, c):
        q = self.mode(st)
        for p in ps:
            xs = p.args[0] if p.op == "txt" else [p]
            for x in xs:
                q = self.step(st, q, x, c)
        forget(st, "mode")
        event(st, "mode", text(q))

    def mode(self, st):
        ms = events(st, "mode")
        return ms[-1].args[1].args[0] if ms else "bol"

    def step(self, st, q, x, c):
        """One character or value of the output; q is the state of the format automaton."""
        isc = isinstance(x, str)
        v, _, q = q.rpartition("|")        # verdict so far, state in the line
        if q == "bol":
            self.printed += 1
            if isc and x == "\n":
                return v + "|bol"
            if isc and x in "csv":
                return v + "|" + x
            return v + "|other"
        if q == "c" or q == "other":
            return v + "|bol" if isc and x == "\n" else v + "|" + q
        if q[0] == "s":
            if isc and x == "\n":
                return self.verdict(st, v, q[1:], c) + "|bol"
            return v + "|" + q + (x if isc else "?")
        # a line of values: v, values each after a space, and finally a 0
        if q == "v":
            if isc and x == " ":
                return v + "|v "
            if isc and x == "\n":
                return v + "|bol"
        if q == "v " and isc and x == "0":
            return v + ("+end" if v == "SAT" else "+bad") + "|v0"
        if q == "v0" and isc and x == "\n":
            return v + "|bol"
        if not isc and x.op == "base" and q == "v" and self.model_text(x.args[0]):
            n = sum(1 for m in events(st, "base") if m.args[1] is x.args[0])
            self.ob(n == 0, "c25:twice", "collected values are printed twice", c)
            event(st, "base", x.args[0])
            return (v if v == "SAT" else v + "+bad") + "|v"
        if not isc and x.op == "disp" and q == "v ":
            event(st, "token", x)
            return (v if v == "SAT" else v + "+bad") + "|v"
        self.ob(False, "c25:format", "a line of values is not made of values separated by single "
                "spaces", c)
        return v + "+bad|other"

    def verdict(self, st, v, line, c):
        res = self.result(st)
        known = {" SATISFIABLE": True, " UNSATISFIABLE": False}.get(line)
        self.ob(known is not None, "c25:verdict-text", "a result line is not one of the known ones",
                c)
        self.ob(res is not None, "c26:unsolved", "a verdict is printed without solving", c)
        if res is not None and known is not None:
            self.ob(st.decide(res if known else t.notb(res)) is True, "c25:verdict",
                    "the printed verdict is not the result of solving", c)
        self.ob(self.closed(st), "c12:verdict", "a verdict is printed before the proof is closed "
                "successfully", c)
        self.ob(v == "", "c25:verdict-twice", "more than one verdict is printed", c)
        return {True: "SAT", False: "UNSAT", None: "?"}[known]

    def result(self, st):
        es = events(st, "solve")
        return es[-1].args[1] if es else None

    def closed(self, st):
        return bool(events(st, "closed"))

    # ---------------------------------------------------------- values
    def check(self, eng, st, fr, sp, final=False):
        """Every value asked for since the last check is printed or pending in a string, in order."""
        want = [m.args[1] for m in events(st, "ask")]
        have = [m.args[1] for m in events(st, "token")]
        bases = [m.args[1] for m in events(st, "base")]
        w = at(fr, sp)
        ob = self.cx.ob
        if "SAT" not in self.mode(st).split("|")[0].split("+") and not want and not have \
                and not bases:
            return
        tail = []
        pending = []
        for b, p, v in self.strings(eng, st):
            ps = self.pieces(eng, st, v)
            if not ps:
                continue
            if ps[0].op == "base":
                base = ps[0].args[0]
                ps = ps[1:]
                ob(self.model_text(base), "c25:text", "output is collected in a way that is not "
                   "understood", w)
                empty = st.decide(t.eq(t.length(base), ZERO)) is True
                if not empty:
                    pending.append(base)
                    if base in bases:
                        ob(not ps and final, "c25:twice", "collected values are printed and kept", w)
                    else:
                        ob(not final, "c25:unprinted", "collected values are not printed", w)
            if final:
                continue
            q = "v"
            for x in ps:
                for y in (x.args[0] if x.op == "txt" else [x]):
                    if q == "v" and y == " ":
                        q = "v "
                    elif q == "v " and not isinstance(y, str) and y.op == "disp":
                        tail.append(y)
                        q = "v"
                    else:
                        q = "bad"
            ob(q == "v", "c25:format", "collected output is not made of values separated by single "
               "spaces", w)
        ob(len(pending) <= 1, "c25:order", "values are collected in several places", w)
        have = have + tail
        ok = len(have) == len(want)
        for x, y in zip(have, want):
            ok = ok and x.args[0] == "lit" and eqv(st, x.args[1], y)
        ob(ok, "c25:values", "the printed values are not exactly the ones of the variables that "
           "have one", w)

    def strings(self, eng, st):
        out = []
        for b, v in st.mem.items():
            if b[0] == "L":
                par, blk, key = eng.ctxinfo[b[1]]
                body, _ = eng.body(key)
                if body is not None and body.locals[b[2]][0] == "std::string::String":
                    out.append((b, (), v))
        return out

    def on_backedge(self, eng, st, fr, h):
        self.check(eng, st, fr, fr.body.blocks[h]["sp"])
        forget(st, "ask", "token", "base")

    def loop_candidates(self, eng, fr, h, head, phis, states):
        return ()

    # ---------------------------------------------------------- arguments
    def field(self, *names):
        d = self.cx.cli.types.get("starlit::Args")
        fs = d["variants"][0]["fields"] if d else []
        for i, f in enumerate(fs):
            if f["name"] in names:
                return t.fld(ARGS, i, len(fs))
        return None

    def is_arg(self, eng, st, x, *names):
        f = self.field(*names)
        for _ in range(4):
            if f is None or x is None:
                return False
            if eqv(st, x, f) or eqv(st, x, t.vfld(f, 1, 0)):
                return True
            if x.op == "ref" or x.op == "pt":
                x = eng.read(st, x)
            else:
                return False
        return False

    def wanted(self, eng, st):
        """Whether a proof was requested."""
        f = self.field("proof_file")
        return None if f is None else st.decide(t.eq(t.disc(f), ONE))

    def proof(self, eng, st, p, c):
        f = p.args[1] if p.op == "proof" else None
        while f is not None and f.op == "dw":
            f = f.args[0]
        src = [m for m in events(st, "file") if m.args[1] is f]
        self.ob(bool(src) and src[-1].args[2].args[0] == "new"
                and self.is_arg(eng, st, src[-1].args[3], "proof_file"), "c26:proof-file",
                "the proof is not written to the requested, newly created file", c)
        k = self.field("proof_format")
        d = self.cx.cli.types.get("starlit::ProofFormat")
        names = [v["name"] for v in d["variants"]] if d else []
        kind = p.args[0] if p.op == "proof" else None
        ok = k is not None and kind in names and \
            st.decide(t.eq(t.disc(k), I(names.index(kind)))) is True
        self.ob(ok, "c26:proof-format", "the proof is not written in the requested format", c)

    # ---------------------------------------------------------- the end
    def final(self, eng, st, code, c, ok=True):
        """The process ends with a status (None: an error that main returns)."""
        self.finals += 1
        fr, sp = (c.fr, c.span) if c is not None else (None, None)
        res = self.result(st)
        states = [(st, None)] if res is None else eng.fork(st, res)
        for s, r in states:
            q = self.mode(s)
            v, _, line = q.rpartition("|")
            self.check(eng, s, fr, sp, True)
            n = None if code is None else \
                (code.args[0] if code.op == "i" else
                 next((k for k in (10, 20, 0, 1) if eqv(s, code, I(k))), "?"))
            if r is None:
                self.ob(v == "", "c26:verdict", "a verdict is printed although solving did not "
                        "take place", c)
                self.ob(n is None or n not in (0, 10, 20, "?"), "c26:status",
                        "the tool ends without solving but with status %s" % n, c)
                continue
            if n is None:
                # only an error of the proof can come up after solving
                self.ob(v == "", "c12:error", "an error is reported after a verdict was printed", c)
                self.ob(not self.closed(s), "c25:error", "the tool fails although the proof could "
                        "be closed", c)
                continue
            if n not in (10, 20, 0, "?"):
                self.ob(v == "", "c25:status", "a verdict is printed but the status is %s" % n, c)
                self.ob(not self.closed(s), "c25:error", "the tool fails although the proof could "
                        "be closed", c)
                continue
            self.ob(self.closed(s), "c12:status", "the tool ends with a verdict status without "
                    "having closed the proof successfully", c)
            self.ob(n == (10 if r else 20), "c25:status", "the tool ends with status %s for %s "
                    "formula" % (n, "a satisfiable" if r else "an unsatisfiable"), c)
            self.ob(v == ("SAT+end" if r else "UNSAT"), "c25:output", "the output for %s formula "
                    "is not complete" % ("a satisfiable" if r else "an unsatisfiable"), c)
            self.ob(line in ("bol", ""), "c25:line", "the output does not end with a newline", c)
            self.ob(not events(s, "buffered"), "c25:flush", "output is left in a buffer when the "
                    "tool ends", c)
            if r:
                vars_ = events(s, "vars")[-1].args[1]
                asked = s.mem.get(NEXT, ZERO)
                self.ob(vars_ is not None and s.decide(t.le(vars_, asked)) is True, "c25:all",
                        "not the value of every variable is looked at", c)


def forget(st, *kinds):
    st.ms = tuple(m for m in st.ms if m.args[0] not in kinds)


def negl(eng, l, flip):
    return neg(l) if flip else l


def table(cx, mon):
    """Meaning of the functions that main calls."""
    pr = prims.allp()

    def string_new(eng, st, c):
        return [(st, VNIL)]
    for n in ("<std::string::String as std::default::Default>::default",
              "std::string::String::new", "std::string::String::with_capacity"):
        pr[n] = string_new

    def lenterm(st, v):
        return ZERO if v is VNIL else mk("sym", "strlen", v)

    def string_len(eng, st, c):
        v = mon.string_at(eng, st, c.args[0])
        n = lenterm(st, v)
        st.assume(t.le(ZERO, n))
        return [(st, n)]
    pr["std::string::String::len"] = string_len
    pr["core::str::<impl str>::len"] = string_len

    def string_is_empty(eng, st, c):
        v = mon.string_at(eng, st, c.args[0])
        if v.op == "push":
            return [(st, FALSE)]
        return [(st, t.eq(t.length(v), ZERO))]
    pr["std::string::String::is_empty"] = string_is_empty

    def string_clear(eng, st, c):
        b, p = eng.deref(st, c.args[0])
        mon.lost(eng, st, eng.rd(st, b, p), None, c.fr, c.span)
        eng.wr(st, b, p, VNIL, c.fr, c.span)
        return [(st, t.UNIT)]
    pr["std::string::String::clear"] = string_clear

    def string_truncate(eng, st, c):
        b, p = eng.deref(st, c.args[0])
        v = x = eng.rd(st, b, p)
        while not eqv(st, lenterm(st, x), c.args[1]):
            if x.op != "push":
                x = VNIL if c.args[1] is ZERO else None
                break
            x = x.args[0]
        if x is None:
            x = eng.fresh(c)
        mon.lost(eng, st, v, x, c.fr, c.span)
        eng.wr(st, b, p, x, c.fr, c.span)
        return [(st, t.UNIT)]
    pr["std::string::String::truncate"] = string_truncate

    def append(eng, st, ptr, ps, c):
        b, p = eng.deref(st, ptr)
        eng.wr(st, b, p, mon.extend(eng.rd(st, b, p), ps), c.fr, c.span)

    def push_str(eng, st, c):
        append(eng, st, c.args[0], mon.pieces(eng, st, mon.string_at(eng, st, c.args[1])), c)
        return [(st, t.UNIT)]
    pr["std::string::String::push_str"] = push_str
    pr["<std::string::String as std::ops::AddAssign<&str>>::add_assign"] = push_str

    def push_chr(eng, st, c):
        x = c.args[1]
        append(eng, st, c.args[0], [text(chr(x.args[0])) if x.op == "i" else mk("odd", x)], c)
        return [(st, t.UNIT)]
    pr["std::string::String::push"] = push_chr

    def to_string(eng, st, c):
        ty = c.argtys[0].lstrip("&").split(" ")[-1]
        v = eng.read(st, c.args[0])
        if "String" in c.argtys[0] or c.argtys[0].endswith("str"):
            return [(st, mon.extend(VNIL, mon.pieces(eng, st, mon.string_at(eng, st, c.args[0]))))]
        return [(st, mon.extend(VNIL, [mk("disp", "lit" if LIT in c.argtys[0] else ty, v)]))]
    pr["std::string::ToString::to_string"] = to_string
    pr["<T as std::string::ToString>::to_string"] = to_string
    pr["<str as std::string::ToString>::to_string"] = to_string
    pr["<T as std::string::SpecToString>::spec_to_string"] = to_string

    def display(eng, st, c):
        ty = c.argtys[0]
        v = eng.read(st, c.args[0])
        while v.op == "ref" and ty.count("&") > 1:
            v = eng.read(st, v)
            ty = ty.replace("&", "", 1)
        if "std::string::String" in ty or ty.endswith("str"):
            return [(st, mk("disp", "str", mon.string_at(eng, st, c.args[0])))]
        return [(st, mk("disp", "lit" if ty.endswith(LIT) else ty, v))]
    pr["core::fmt::rt::Argument::<'_>::new_display"] = display

    def other_fmt(eng, st, c):
        return [(st, mk("odd", eng.fresh(c)))]
    for n in ("new_debug", "new_lower_exp", "new_upper_exp", "new_octal", "new_pointer",
              "new_binary", "new_lower_hex", "new_upper_hex", "new_debug_noop"):
        pr["core::fmt::rt::Argument::<'_>::" + n] = other_fmt

    def args_str(eng, st, c):
        return [(st, mk("fmt", *mon.pieces(eng, st, mon.string_at(eng, st, c.args[0]))))]
    pr["std::fmt::Arguments::<'a>::from_str"] = args_str
    pr["std::fmt::Arguments::<'a>::from_str_nonconst"] = args_str

    def args_new(eng, st, c):
        return [(st, mk("fmt", *mon.args_of(eng, st, c.args[0], c.args[1])))]
    pr["std::fmt::Arguments::<'a>::new"] = args_new

    def parts(x):
        return list(x.args) if x.op == "fmt" else [mk("odd", x)]

    def fmt_format(eng, st, c):
        return [(st, mon.extend(VNIL, parts(c.args[0])))]
    pr["std::fmt::format"] = fmt_format
    pr["alloc::fmt::format"] = fmt_format

    def write_fmt(eng, st, c):
        ty = c.argtys[0]
        if "String" in ty:
            append(eng, st, c.args[0], parts(c.args[1]), c)
        elif "io::Stdout" in ty or "Stdout" in ty:
            mon.out(eng, st, parts(c.args[1]), c)
            if "BufWriter" in ty or "LineWriter" in ty:
                forget(st, "buffered")
                event(st, "buffered")
        return [(st, t.en(0, t.UNIT))]
    pr["std::fmt::Write::write_fmt"] = write_fmt
    pr["std::io::Write::write_fmt"] = write_fmt
    pr["<std::io::Stdout as std::io::Write>::write_fmt"] = write_fmt
    pr["<std::io::StdoutLock<'_> as std::io::Write>::write_fmt"] = write_fmt
    pr["<std::string::String as std::fmt::Write>::write_fmt"] = write_fmt

    def write_str(eng, st, c):
        append(eng, st, c.args[0], mon.pieces(eng, st, mon.string_at(eng, st, c.args[1])), c)
        return [(st, t.en(0, t.UNIT))]
    pr["<std::string::String as std::fmt::Write>::write_str"] = write_str

    def write_all(eng, st, c):
        if "Stdout" in c.argtys[0]:
            mon.out(eng, st, mon.pieces(eng, st, mon.string_at(eng, st, c.args[1])), c)
            if "BufWriter" in c.argtys[0] or "LineWriter" in c.argtys[0]:
                forget(st, "buffered")
                event(st, "buffered")
            return [(st, t.en(0, t.UNIT))]
        return None
    for n in ("<std::io::StdoutLock<'_> as std::io::Write>::write_all",
              "<std::io::Stdout as std::io::Write>::write_all", "std::io::Write::write_all",
              "<std::io::BufWriter<W> as std::io::Write>::write_all",
              "<std::io::LineWriter<W> as std::io::Write>::write_all"):
        pr[n] = write_all

    def flush(eng, st, c):
        if "Stdout" in c.argtys[0]:
            forget(st, "buffered")
            return [(st, t.en(0, t.UNIT))]
        return None
    for n in ("<std::io::StdoutLock<'_> as std::io::Write>::flush",
              "<std::io::Stdout as std::io::Write>::flush", "std::io::Write::flush",
              "<std::io::BufWriter<W> as std::io::Write>::flush",
              "<std::io::LineWriter<W> as std::io::Write>::flush"):
        pr[n] = flush

    def print_(eng, st, c):
        mon.out(eng, st, parts(c.args[0]), c)
        return [(st, t.UNIT)]
    pr["std::io::_print"] = print_

    def eprint(eng, st, c):
        return [(st, t.UNIT)]
    pr["std::io::_eprint"] = eprint

    def parse(eng, st, c):
        return [(st, ARGS)] if "starlit::Args" in c.destty else None
    pr["clap::Parser::parse"] = parse

    # ------------------------------------------------------------ end of the process
    def exit_(eng, st, c):
        mon.final(eng, st, c.args[0], c)
        return []
    pr["std::process::exit"] = exit_

    def abort(eng, st, c):
        return []
    pr["std::process::abort"] = abort

    def exit_code(eng, st, c):
        return [(st, mk("code", c.args[0]))]
    pr["<std::process::ExitCode as std::convert::From<u8>>::from"] = exit_code

    # ------------------------------------------------------------ files
    def options(eng, st, c):
        return [(st, mk("opts"))]
    pr["std::fs::File::options"] = options
    pr["std::fs::OpenOptions::new"] = options

    def option(name):
        def f(eng, st, c):
            b, p = eng.deref(st, c.args[0])
            o = eng.rd(st, b, p)
            if o.op == "opts":
                o = mk("opts", *(tuple(x for x in o.args if x.args[0] != name)
                                 + (mk("opt", name, c.args[1]),)))
            eng.wr(st, b, p, o, c.fr, c.span)
            return [(st, c.args[0])]
        return f
    for n in ("read", "write", "append", "truncate", "create", "create_new"):
        pr["std::fs::OpenOptions::" + n] = option(n)

    def set_of(eng, st, ptr):
        o = eng.read(st, ptr)
        if o.op != "opts":
            return None
        return {x.args[0]: st.decide(x.args[1]) for x in o.args}

    def opened(eng, st, c, path, opts):
        n = len(events(st, "file"))
        while path.op == "ref" and path.args[0][0] in ("L", "T"):
            path = eng.read(st, path)
        s2 = st.copy()
        f = mk("file", c.fr.ctx, c.block)
        if opts is not None and opts.get("create_new") is True:
            kind = "new"
        elif opts is not None and not any(opts.get(k) is not False and k in opts
                                          for k in ("write", "append", "truncate", "create",
                                                    "create_new")):
            kind = "read"
        else:
            kind = "write"
            mon.ob(False, "c26:overwrite", "a file is opened for writing without requiring that it "
                   "does not exist yet", c)
        if kind == "new":
            mon.ob(opts.get("write") is True or opts.get("append") is True, "c26:proof-mode",
                   "the proof file is not opened for writing", c)
        event(st, "file", f, text(kind), path)
        event(s2, "failed")
        return [(st, t.en(0, f)), (s2, t.en(1, eng.fresh(c, "err")))]

    def open_(eng, st, c):
        return opened(eng, st, c, c.args[1], set_of(eng, st, c.args[0]))
    pr["std::fs::OpenOptions::open"] = open_

    def file_open(eng, st, c):
        return opened(eng, st, c, c.args[0], {"read": True})
    pr["std::fs::File::open"] = file_open

    def file_create(eng, st, c):
        return opened(eng, st, c, c.args[0], {"write": True, "create": True, "truncate": True})
    pr["std::fs::File::create"] = file_create

    def file_create_new(eng, st, c):
        return opened(eng, st, c, c.args[0], {"read": True, "write": True, "create_new": True})
    pr["std::fs::File::create_new"] = file_create_new

    def buffered(eng, st, c):
        return [(st, mk("dw", c.args[-1]))]
    for n in ("flussab::DeferredWriter::<'a>::from_write", "std::io::BufReader::<R>::new",
              "std::io::BufWriter::<W>::new", "std::io::BufReader::<R>::with_capacity",
              "flussab::DeferredWriter::<'a>::from_boxed_dyn_write"):
        pr[n] = buffered

    # ------------------------------------------------------------ input
    def config(eng, st, c):
        return [(st, mk("cfg0"))]
    pr["<flussab_cnf::cnf::Config as std::default::Default>::default"] = config

    def from_read(eng, st, c):
        f = c.args[0]
        while f.op in ("dw",):
            f = f.args[0]
        src = [m for m in events(st, "file") if m.args[1] is f]
        mon.ob(bool(src) and src[-1].args[2].args[0] == "read"
               and mon.is_arg(eng, st, src[-1].args[3], "input_file"), "c26:input",
               "the formula is not read from the given input file", c)
        mon.ob(c.args[1].op == "cfg0", "c26:config", "the parser is not used with its default "
               "strictness", c)
        s2 = st.copy()
        event(st, "parser")
        event(s2, "failed")
        return [(st, t.en(0, mk("parser", c.fr.ctx, c.block))), (s2, t.en(1, eng.fresh(c, "err")))]
    pr["flussab_cnf::cnf::Parser::<'a, L>::from_read"] = from_read

    def header(eng, st, c):
        s2 = st.copy()
        event(st, "header")
        event(s2, "failed")
        return [(st, some(eng.fresh(c))), (s2, NONE)]
    pr["flussab_cnf::cnf::Parser::<'a, L>::header"] = header

    def next_clause(eng, st, c):
        mon.ob(not events(st, "clause"), "c26:skipped", "a clause of the input is not given to the "
               "solver", c)
        forget(st, "clause", "eof")
        s2, s3 = st.copy(), st.copy()
        base = ("G", "clause", c.fr.ctx, c.block)
        x = eng.fresh(c, "clause")
        eng.wr(st, base, (), x, None, None)
        event(st, "clause", x)
        event(s2, "eof")
        event(s3, "failed")
        return [(st, t.en(0, some(mk("ref", base, ())))), (s2, t.en(0, NONE)),
                (s3, t.en(1, eng.fresh(c, "err")))]
    pr["flussab_cnf::cnf::Parser::<'a, L>::next_clause"] = next_clause

    # ------------------------------------------------------------ solver
    def solver_default(eng, st, c):
        return [(st, eng.fresh(c))]
    pr["<starlit::solver::Solver<'a> as std::default::Default>::default"] = solver_default

    def logged(eng, st, c):
        return [(st, t.UNIT)]
    pr["starlit::log::Logger::log"] = logged

    def add_clause(eng, st, c):
        es = events(st, "clause")
        x = eng.read(st, c.args[1])
        if es and eqv(st, es[-1].args[1], x):
            st.ms = tuple(m for m in st.ms if m is not es[-1])
        else:
            mon.ob(False, "c26:extra", "the solver is given a clause that is not the next one of "
                   "the input", c)
        mon.ob(not events(st, "solve"), "c26:late", "a clause is added after solving", c)
        forget(st, "closed", "solving")
        forget(st, "added")
        event(st, "added")
        return [(st, t.UNIT)]
    pr[SV + "add_clause"] = add_clause

    def proof_new(kind):
        def f(eng, st, c):
            return [(st, mk("proof", kind, c.args[0]))]
        return f
    pr["starlit::proof::drat::Drat::<'a>::new"] = proof_new("Drat")
    pr["starlit::proof::drat::BinaryDrat::<'a>::new"] = proof_new("BinaryDrat")

    def write_proof(eng, st, c):
        p = c.args[1]
        if p.op == "ref":
            p = eng.read(st, p)
        mon.proof(eng, st, p, c)
        mon.ob(not events(st, "added") and not events(st, "solve"), "c26:proof-late",
               "the proof is started after the first clause was added", c)
        forget(st, "proof")
        event(st, "proof", p)
        return [(st, t.UNIT)]
    pr[SV + "write_proof"] = write_proof

    def close_proof(eng, st, c):
        s2 = st.copy()
        event(st, "closed")
        event(s2, "failed")
        return [(st, t.en(0, t.UNIT)), (s2, t.en(1, eng.fresh(c, "err")))]
    pr[SV + "close_proof"] = close_proof

    def solve(eng, st, c):
        ok = not events(st, "failed")
        mon.ob(ok, "c26:failed", "solving takes place although an input or proof error occurred", c)
        mon.ob(bool(events(st, "eof")) and not events(st, "clause"), "c26:all",
               "solving starts before every clause of the input was given to the solver", c)
        mon.ob(bool(events(st, "header")), "c26:header", "a formula without a header is solved", c)
        want = mon.wanted(eng, st)
        got = bool(events(st, "proof"))
        mon.ob(want is not None and want == got, "c26:proof", "a proof is %swritten although it "
               "%s requested" % (("", "may not be") if got else ("not ", "may be")), c)
        forget(st, "closed", "eof", "header", "parser", "added")
        mon.ob(not events(st, "solve"), "c25:solve-twice", "the formula is solved twice", c)
        r = eng.fresh(c)
        event(st, "solve", r)
        sv = arg_view(eng, cx, st, c, SOLVER)
        event(st, "vars", sv.ctx.stats.formula.vars)
        return [(st, r)]
    pr[SV + "solve"] = solve

    def value(eng, st, c):
        sv = arg_view(eng, cx, st, c, SOLVER)
        n = sv.ctx.stats.formula.vars
        l = c.args[1]
        a = st.mem.get(NEXT, ZERO)
        if st.decide(t.eq(var(l), a)) is True:
            st.mem[NEXT] = t.add(a, ONE)
        out = []
        s0 = st.copy()
        out.append((s0, NONE))
        s1 = st.copy()
        if s1.assume(t.lt(var(l), n)):
            s2 = s1.copy()
            event(s1, "ask", l)
            out.append((s1, some(TRUE)))
            event(s2, "ask", neg(l))
            out.append((s2, some(FALSE)))
        return out
    pr[SV + "value"] = value
    return pr


def run(cx, *prefixes):
    only = Only(cx, *prefixes)
    mon = Cli(only)
    keys = cx.cli.find(MAIN)
    if not keys:
        from ..check import Unknown
        raise Unknown("no main function")
    e = cx.engine(mon, table(only, mon), crates=[cx.cli, cx.lib])
    from ..state import State
    st = State()
    st.mem[NEXT] = ZERO
    body = cx.cli.body(keys[0])
    outs = e.analyse(keys[0], [], st)
    e.deadline = None
    n = 0
    for s, r in outs:
        for code in status(e, s, r, body.locals[0][0]):
            mon.final(e, code[0], code[1], None)
    return e, mon


def status(eng, s, r, ty):
    """Exit status of a return value of main: [(state, status or None for an error)]."""
    if r.op == "code":
        return [(s, r.args[0])]
    if "Result<" in ty:
        out = []
        for v in (0, 1):
            s2 = s.copy()
            if not s2.assume(t.eq(t.disc(r), I(v))):
                continue
            if v == 1:
                out.append((s2, None))
            else:
                x = t.vfld(r, 0, 0)
                out.append((s2, x.args[0] if x.op == "code" else ZERO if "ExitCode" not in ty
                            else mk("sym", "status")))
        return out
    if ty == "()":
        return [(s, ZERO)]
    return [(s, mk("sym", "status"))]
