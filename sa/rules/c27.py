"""Logging, by information flow and abstract interpretation of the logger and of every log statement.

The configured level, the source location switch and the verbosity options of the command line are
marked; the marks are followed through the whole program and may only decide whether and what the
logger prints.  Functions handed to the logger must not be able to change what they capture (types of
all captures, effects of everything they call).  Logger::log is interpreted for every configured level
and every message level: it writes exactly if the level is enabled, and then one line that starts with
'c' and ends with the only newline.  Every log statement is interpreted: its constant texts have no
newline, its values have types that print none, and it cannot panic."""
from .common import *
from ..state import State as St
from .. import prims
from . import scan, taint, c28, cli

RULE = "flow of the log configuration; effects, texts and values of every log statement; line format"
ASSUMES = ["writing to standard output succeeds", "the Debug output of standard number, slice and "
           "option types and derived Debug output has no newline",
           "arithmetic in log statements does not overflow (C34)"]
BOTH_PROFILES = False

LG = "starlit::log::Logger"
LEVEL = "starlit::log::LogLevel"
LOG = LG + "::log"
DEBUG = "&dyn std::fmt::Debug"
OKCALL = c28.PURE - {"process", "fs", "panicking", "hint", "ffi"} | {"time"}


def run(cx):
    flow(cx)
    gate(cx)
    messages(cx)
    statements(cx)
    reports(cx)


# ------------------------------------------------------------ who depends on the configuration

def flow(cx):
    crates = [cx.lib, cx.cli]

    def field(adt, i, name):
        return adt == LG and name in conf or adt == "starlit::Args" and name in (
            "verbose", "quiet", "log_src")
    conf = configuration(cx)
    fl = taint.Flow(crates, field=field, sink=c28.log_sink,
                    exempt=lambda b: scan.base(b.path).startswith(LG + "::")
                    or " as clap::" in b.path)
    cx.note("configuration of the logger: %s" % ", ".join(conf))
    cx.ob(bool(conf), "c27:config", "the configuration of the logger is not recognised", LG)
    c28.check(cx, fl, "c27", "the log configuration")


def configuration(cx):
    """Fields of the logger that its setters write."""
    fs = cx.lay.adt(LG)[1]["variants"][0]["fields"]
    out = []
    for k, b in scan.bodies(cx.lib):
        if not scan.base(b.path).startswith(LG + "::"):
            continue
        for pl, use, sp in scan.places(b):
            for a, i, last in scan.fields_of(cx.lib, b, pl):
                if a == LG and use in ("write", "refmut") and fs[i]["name"] not in out:
                    out.append(fs[i]["name"])
    return out


# ------------------------------------------------------------ the logger itself

class Lines(cli.Cli):
    """Collects what is written to standard output."""

    def out(self, eng, st, ps, c):
        for p in ps:
            event(st, "out", p)

    def on_drop(self, eng, st, fr, base, path, ty, sp):
        return None

    def on_backedge(self, eng, st, fr, h):
        pass

    def loop_candidates(self, eng, fr, h, head, phis, states):
        return ()

    def loop_alls(self, eng, fr, h, head, phis, states, sigma):
        return ()


def table(cx, mon):
    pr = cli.table(cx, mon)
    keep = prims.allp()
    for n in list(pr):
        if n not in keep and not n.startswith(("std::", "core::", "alloc::", "<std::", "<T as std",
                                               "<str as std")):
            del pr[n]

    def action(eng, st, c):
        event(st, "out", mk("action"))
        return [(st, t.UNIT)]
    for n in CALLS:
        pr[n] = action

    def location(eng, st, c):
        return [(st, mk("sym", "location"))]
    pr["std::panic::Location::<'a>::file"] = location

    def debug(eng, st, c):
        return [(st, mk("disp", "debug", c.args[0]))]
    pr["core::fmt::rt::Argument::<'_>::new_debug"] = debug
    return pr


CALLS = ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")


def uncalled(cx):
    """Closures are what they are."""
    pr, keep = table(cx, Lines(cx)), prims.allp()
    for n in CALLS:
        del pr[n]
        if n in keep:
            pr[n] = keep[n]
    return pr


def setting(cx, level):
    """The logger after its level has been set."""
    key = cx.key(LG + "::set_log_level")
    i = cx.param(key, LG)
    x = t.en(0) if level is None else t.en(1, t.en(level))
    e, a, outs = cx.run(key, args={1 - i: x}, pr=uncalled(cx))
    return [(s, e.read(s, a[i])) for s, _ in outs]


def gate(cx):
    n = len(levels(cx))
    w = cx.where(LOG)
    key = next((k for k in cx.lib.find(LOG) if "<impl" in k), None) or cx.key(LOG)
    ib, il = cx.param(key, "&" + LG), cx.param(key, LEVEL)
    runs = 0
    for conf in [None] + list(range(n)):
        for s0, lg in setting(cx, conf):
            for m in range(n):
                on = conf is not None and m <= conf
                s1 = St()
                mon = Lines(cx)
                base = mk("sym", "a%d" % ib)
                s1.mem[("P", base)] = lg
                e, a, outs = cx.run(key, args={il: t.en(m)}, st=s1, rule=mon, pr=table(cx, mon))
                cx.ob(bool(outs), "c27:returns", "the logger does not return", w)
                for s, _ in outs:
                    runs += 1
                    ps = [x.args[1] for x in events(s, "out")]
                    if not on:
                        cx.ob(not ps, "c27:suppressed", "a message of level %d is written although "
                              "the limit is %s" % (m, conf), w)
                        continue
                    cx.ob(bool(ps), "c27:emitted", "a message of level %d is not written although "
                          "the limit is %s" % (m, conf), w)
                    if ps:
                        line(cx, e, s, mon, ps, w)
                    cx.ob(eqv(s, e.read(s, a[ib]), lg), "c27:changed", "logging changes the logger",
                          w)
    cx.ob(runs > 0, "c27:runs", "no log output was analysed", w)


def levels(cx):
    for ty, k in cx.lib.types.items():
        if k.get("path") == LEVEL and k["k"] == "adt":
            return k["variants"]
    return []


def line(cx, e, s, mon, ps, w):
    """The pieces make up one comment line."""
    txt = ""
    for p in ps:
        if p.op == "txt":
            txt += p.args[0]
        elif p.op == "action":
            txt += "\0"
        elif p.op == "base" and p.args[0].op == "sym" and p.args[0].args[0] == "location" \
                or p.op == "disp" and number(p.args[0]) or p is mk("sym", "location"):
            txt += "?"
        elif p.op == "disp" and p.args[0] == "str":
            txt += "?" if "location" in str(p.args[1]) else "\1"
        else:
            txt += "?" if "location" in str(p) and "odd" not in str(p) else "\1"
    cx.ob(txt.startswith("c") and txt[1:2] in (" ", "\0", "\n", "?"), "c27:start",
          "a log line does not start with 'c'", w)
    cx.ob(txt.endswith("\n") and txt.count("\n") == 1, "c27:end", "log output is not one line", w)
    cx.ob("\r" not in txt and "\1" not in txt, "c27:line", "log output contains text that may "
          "have a newline", w)
    cx.ob(txt.count("\0") == 1, "c27:once", "the message is not written exactly once", w)
    i = txt.find("\0")
    cx.ob(txt[:i] and txt[:i].lstrip("c")[:1] in ("", " "), "c27:prefix",
          "the prefix of a log line is not a comment", w)


INTTY = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize",
         "bool", "f32", "f64"}


def number(ty):
    return isinstance(ty, str) and ty.lstrip("&").strip() in INTTY


def messages(cx):
    """The writer's side of a message: a space, then the text or value."""
    for name in ("add_message", "add_value"):
        ks = [k for k in cx.lib.raw if cx.lib.raw[k] and
              (cx.lib.body(k) is not None and cx.lib.body(k).path.endswith("LogMessage>::" + name))]
        cx.ob(bool(ks), "c27:" + name, "LogMessage::%s is not implemented" % name, LG)
        for k in ks:
            mon = Lines(cx)
            pr = table(cx, mon)

            def write(eng, st, c, mon=mon):
                x = c.args[1]
                mon.out(eng, st, list(x.args) if x.op == "fmt" else [mk("odd", x)], c)
                return [(st, t.en(0, t.UNIT))]
            for n in list(pr):
                if n.endswith("io::Write::write_fmt") or n.endswith("io::Write>::write_fmt"):
                    pr[n] = write
            pr["std::io::Write::write_fmt"] = write
            w = cx.where(k)
            e, a, outs = cx.run(k, rule=mon, pr=pr)
            for s, _ in outs:
                ps = [x.args[1] for x in events(s, "out")]
                txt = "".join(p.args[0] for p in ps if p.op == "txt")
                rest = [p for p in ps if p.op != "txt"]
                cx.ob(txt.startswith(" ") and "\n" not in txt and "\r" not in txt,
                      "c27:%s:text" % name, "a message is not written as text after a space", w)
                ok = len(rest) == 1 and (rest[0].op in ("disp", "base"))
                cx.ob(ok, "c27:%s:value" % name, "%s does not write its argument in one line" % name,
                      w)
            cx.ob(bool(outs), "c27:%s:returns" % name, "%s does not return" % name, w)


# ------------------------------------------------------------ log statements

def statements(cx):
    n = 0
    for c in (cx.lib, cx.cli):
        for k, b in scan.bodies(c):
            for rec, tm, sp, bi in scan.calls(b):
                if rec is None or scan.callee(rec) != LOG:
                    continue
                if scan.base(b.path).startswith(LG + "::"):
                    continue
                at_ = "%s at %s" % (b.path, scan.line(sp))
                cl = closures(b, tm)
                cx.ob(bool(cl), "c27:statement:" + scan.base(b.path), "the logger is called with "
                      "something that is not a closure", at_)
                for ck, ty in cl:
                    n += 1
                    statement(cx, c, b, ck, ty, at_)
    cx.note("%d log statements" % n)
    cx.ob(n >= 5, "c27:statements", "the log statements are not recognised", LG)


def closures(b, tm):
    """Closures passed to a call: [(body key, type)]."""
    out = []
    wanted = {o[1][0] for o in tm[2] if o[0] in ("c", "m")}
    for _ in range(3):
        for bl in b.blocks:
            for s in bl["s"]:
                if s[0] == "=" and s[1][0] in wanted and s[2][0] in ("use", "ref"):
                    o = s[2][1] if s[2][0] == "use" else None
                    if o and o[0] in ("c", "m"):
                        wanted.add(o[1][0])
    for bl in b.blocks:
        for s in bl["s"]:
            if s[0] == "=" and s[1][0] in wanted and s[2][0] == "agg" and s[2][1][0] == "closure":
                out.append((s[2][1][2], s[2][1][1]))
    return out


class Statement(Lines):
    """One log statement: what it adds to the message, and that it cannot panic."""

    def __init__(self, cx, at_):
        Lines.__init__(self, cx)
        self.at_ = at_

    def on_assert(self, eng, st, fr, cond, tm, sp):
        self.cx.ob(st.decide(cond) is True, "c27:panic", "a log statement can panic", self.at_)

    def on_index(self, eng, st, call, base, path, idx, n):
        self.cx.ob(st.decide(t.lt(idx, n)) is True, "c27:panic", "a log statement can panic",
                   self.at_)


def statement(cx, c, b, ck, ty, at_):
    d = c.types.get(ty) or {}
    for u in d.get("upvars", ("?",)):
        cx.ob("&mut" not in u and "*mut" not in u and " mut " not in u and not celled(c, u),
              "c27:capture:" + scan.base(b.path),
              "a log statement can change what it captures (%s)" % u, at_)
    effects(cx, c, ck, at_)
    cb = c.body(ck)
    if cb is None:
        cx.ob(False, "c27:body", "the code of a log statement is not known", at_)
        return
    for bl in cb.blocks:
        for s in bl["s"]:
            if s[0] == "=" and s[2][0] == "cast" and "Unsize" in str(s[2][1]) \
                    and "fmt::Debug" in str(s[2][4]):
                bad = newline(c, s[2][3])
                cx.ob(not bad, "c27:value:" + scan.base(b.path), "the Debug output of %s may have "
                      "more than one line" % bad, at_)
    mon = Statement(cx, at_)
    pr = table(cx, mon)

    def message(eng, st, c_):
        x = mon.pieces(eng, st, mon.string_at(eng, st, c_.args[1]))
        ok = all(p.op == "txt" and "\n" not in p.args[0] and "\r" not in p.args[0] for p in x)
        cx.ob(ok, "c27:message:" + scan.base(b.path), "a log message is not a constant text without "
              "newline", at_)
        return [(st, t.UNIT)]

    def value(eng, st, c_):
        v = c_.args[1]
        for _ in range(3):
            if v.op != "ref":
                break
            v = eng.read(st, v)
        if v.op == "fmt":
            ok = all(plain(p) for p in v.args)
            cx.ob(ok, "c27:format:" + scan.base(b.path), "a formatted log value may have a newline",
                  at_)
        return [(st, t.UNIT)]
    for o in list(pr):
        if "LogMessage" in o:
            del pr[o]
    for p in ("starlit::log::LogMessage::", "<dyn starlit::log::LogMessage as "
              "starlit::log::LogMessage>::", "<T as starlit::log::LogMessage>::"):
        pr[p + "add_message"] = message
        pr[p + "add_value"] = value
    e = cx.engine(mon, pr, crates=[c] if c is cx.lib else [c, cx.lib])
    args = [mk("sym", "a%d" % i) for i in range(cb.argc)]
    args[0] = mk("sym", "captured")
    e.analyse(ck, args, St())
    e.deadline = None


def plain(p):
    """A piece of a formatted value without newline."""
    if p.op == "txt":
        return "\n" not in p.args[0] and "\r" not in p.args[0]
    if p.op == "odd":
        p = p.args[0]
    return p.op == "disp" and (number(p.args[0]) or p.args[0] in ("lit", "debug"))


def celled(c, ty, seen=None):
    """Whether data of this type can change behind a shared reference."""
    seen = set() if seen is None else seen
    ty, d = scan.peel(c, ty)
    if ty in seen:
        return False
    seen.add(ty)
    if any(w in ty for w in ("Cell<", "Atomic", "Mutex<", "RwLock<", "Once")):
        return True
    if d["k"] == "adt" and d.get("local"):
        return any(celled(c, f["ty"], seen) for v in d.get("variants", ()) for f in v["fields"])
    if d["k"] in ("slice", "array"):
        return celled(c, d.get("ty", "?"), seen)
    if d["k"] == "tuple":
        return any(celled(c, x, seen) for x in d.get("tys", ()))
    if d["k"] == "adt":
        return any(celled(c, x, seen) for x in d.get("args", ()) if isinstance(x, str))
    return False


def effects(cx, c, ck, at_):
    """Everything a log statement calls only computes."""
    todo, seen = [ck], set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        b = c.body(k)
        if b is None:
            continue
        for bl in b.blocks:
            for s in bl["s"]:
                if s[0] == "=" and "'static'" in str(s[2]) and "mutable" in str(s[2]):
                    cx.ob(False, "c27:static", "a log statement uses a static", at_)
        for rec, tm, sp, bi in scan.calls(b):
            if rec is None:
                cx.ob(False, "c27:indirect", "a log statement calls an unknown function", at_)
                continue
            p = scan.callee(rec)
            if rec.get("key") in c.raw and c.body(rec["key"]) is not None \
                    and scan.is_local(c.body(rec["key"])):
                todo.append(rec["key"])
                continue
            if "LogMessage" in p or str(rec.get("crate", "")).startswith("starlit"):
                continue
            ok = all(m in OKCALL for _, m in c28.modules(p))
            cx.ob(ok, "c27:effect:" + p, "a log statement calls %s, which may have an effect" % p,
                  at_)


STDOK = ("std::option::Option", "std::time::Duration", "std::vec::Vec", "std::fmt::Arguments",
         "std::string::String", "std::ops::Range", "std::path::PathBuf", "std::boxed::Box",
         "std::result::Result", "std::marker::PhantomData", "std::cmp::Ordering")


def newline(c, ty, seen=None):
    """A type within ty whose Debug output may have several lines, or None."""
    seen = set() if seen is None else seen
    ty, d = scan.peel(c, ty)
    if ty in seen:
        return None
    seen.add(ty)
    k = d["k"]
    if ty in INTTY or k in ("int", "uint", "float", "bool", "char", "str", "never"):
        return None
    if ty in ("str", "char", "()"):
        return None
    if k in ("slice", "array"):
        return newline(c, d.get("ty", "?"), seen)
    if k == "tuple":
        return next((x for x in (newline(c, y, seen) for y in d.get("tys", ())) if x), None)
    if k == "adt":
        p = d["path"]
        if d.get("local"):
            return None if debug_fine(c, p) else ty
        if p in STDOK:
            return next((x for x in (newline(c, y, seen) for y in d.get("args", ())
                                     if isinstance(y, str) and not y.startswith("'")
                                     and y != "std::alloc::Global") if x), None)
    return ty


def debug_fine(c, path):
    """The Debug implementation of a local type writes no newline of its own."""
    for k, b in scan.bodies(c):
        if b.path != "<%s as std::fmt::Debug>::fmt" % path:
            continue
        for bl in b.blocks:
            for s in bl["s"]:
                if s[0] == "=" and has_newline(s[2]):
                    return False
            if bl["t"][0] == "call" and any(has_newline(o) for o in bl["t"][2]):
                return False
    return True


def has_newline(x):
    """A constant text with a newline."""
    if isinstance(x, dict):
        if "str" in x and isinstance(x["str"], str):
            return "\n" in x["str"]
        return any(has_newline(y) for y in x.values())
    if isinstance(x, (list, tuple)):
        return any(has_newline(y) for y in x)
    return False


def reports(cx):
    """Progress reports leave the solver as it is."""
    CTXP = "starlit::context::Ctx"
    for k, b in scan.bodies(cx.lib):
        if not b.path.startswith("starlit::report::") or b.kind not in ("Fn", "AssocFn"):
            continue
        key = k
        i = next((j for j in range(b.argc) if CTXP in b.locals[j + 1][0]), None)
        if i is None:
            continue
        mon = Lines(cx)
        pr = table(cx, mon)
        pr[LOG] = lambda eng, st, c: [(st, t.UNIT)]
        pr[LG + "::time"] = lambda eng, st, c: [(st, mk("sym", "now"))]
        w = b.path
        e, a, outs = cx.run(key, rule=mon, pr=pr)
        cx.ob(bool(outs), "c27:report:returns", "a progress report does not return", w)
        for s, _ in outs:
            bad = same_but(cx, s, post(e, cx, s, a[i], CTXP), pre(e, cx, a[i], CTXP))
            cx.ob(not bad, "c27:report", "a progress report changes %s" % ", ".join(bad), w)
