"""Determinism, by information flow from every source of environment dependence.

A query classifies every call in the library and the command line program that leaves the workspace
by the module it goes to.  Calls into modules with time, threads, environment, randomised hashing or
addresses, conversions of pointers to integers, and mutable statics are sources.  The marks they set
are followed through assignments, fields, calls, returns and branches of the whole program; they may
reach log output and the logger's own fields, and nothing else: no result of the solver's interface,
no proof output, no printed verdict, no exit status, no other call."""
from .common import *
from . import scan, taint

RULE = "information flow from environment-dependent sources to everything but log output"
ASSUMES = ["the parser, the buffered writer, the argument parser and the allocator are deterministic",
           "modules of the standard library that compute on values are deterministic"]

PURE = set("""array bool f32 f64 fmt num slice str string vec option result iter ops cmp mem ptr
convert clone default borrow boxed rc char collections hash hint intrinsics io panic panicking rt
marker any error alloc cell ascii range u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize process
fs path ffi tuple macros pin const_ptr mut_ptr""".split())
SOURCES = set("time thread env net sync os arch random backtrace".split())
CRATES = {"flussab", "flussab_cnf", "anyhow", "clap", "mimalloc", "core", "std", "alloc"}
LOGGER = "starlit::log::Logger"
ITER = ("iter", "iter_mut", "keys", "values", "values_mut", "drain", "into_iter", "into_keys",
        "into_values", "retain")


def modules(path):
    """(crate, module) mentioned in the path of a function."""
    import re
    return re.findall(r"\b(std|core|alloc)::(\w+)", path)


def environment(path, rec=None):
    """Whether the result of a call depends on more than its arguments."""
    ms = modules(path)
    if any(m in SOURCES for _, m in ms):
        if "std::sync::Arc" in path:
            return False
        return True
    if path in ("std::process::id",) or path.startswith(("std::fs::metadata", "std::fs::read_dir",
                                                         "std::fs::Metadata")):
        return True
    if ("hash_map" in path or "hash_set" in path or "HashMap" in path or "HashSet" in path) and \
            scan.fname(path) in ITER:
        return True
    if "RandomState" in path or "new_pointer" in path or "std::fmt::Pointer" in path:
        return True
    n = scan.fname(path)
    return "ptr::" in path and n in ("addr", "expose_provenance", "align_offset", "expose_addr",
                                     "to_bits", "hash")


def source(c, b, p, rec, t):
    if environment(p):
        return True
    args = " ".join(str(x) for x in rec.get("args", ()))
    return scan.fname(p) in ITER and ("HashMap" in args or "HashSet" in args)


def statics(crates):
    return {x["path"]: x for c in crates for x in c.d["consts"] if x.get("static")}


def shared(crates):
    """Statics whose content can change."""
    out = set()
    for p, x in statics(crates).items():
        ty = x.get("ty", "")
        if x.get("mutable") or any(w in ty for w in ("Cell", "Atomic", "Mutex", "RwLock", "Once",
                                                     "Lazy", "LocalKey")):
            out.add(p)
    return out


def rvalue(changing):
    def f(c, b, r):
        if r[0] == "cast" and "Expose" in str(r[1]):
            return True
        if r[0] == "cast" and "Transmute" in str(r[1]) and str(r[3]).startswith(("&", "*")) \
                and not str(r[4]).startswith(("&", "*")) and (c.types.get(r[4]) or {}).get("k") in (
                    "int", "uint"):
            return True
        if changing:
            for o in scan.rv_operands(r):
                if o[0] == "k" and any(('"%s"' % s in str(o[1]) or "'%s'" % s in str(o[1]))
                                       for s in changing):
                    return True
        return False
    return f


def log_sink(p, c, b, t):
    """Calls that write log output."""
    if p.startswith("starlit::log::LogMessage::") or " as starlit::log::LogMessage>" in p:
        return True
    if p.startswith("std::io::Write::") or " as std::io::Write>" in p:
        o = t[2][0]
        ty = b.locals[o[1][0]][0] if o[0] in ("c", "m") else ""
        return "Stdout" in ty or "Stderr" in ty or "starlit::log::" in b.path \
            or "std::io::Stdout" in str(t[1])
    return p in ("std::io::_eprint",)


def leave(fl):
    """Calls out of the workspace."""
    for key, (c, b) in fl.bodies.items():
        for rec, t, sp, bi in scan.calls(b):
            yield key, c, b, rec, t, sp, bi


def run(cx):
    crates = [cx.lib, cx.cli]
    st = shared(crates)
    fl = taint.Flow(crates, source=source, sink=log_sink, rvalue=rvalue(st),
                    exempt=lambda b: False)
    n, src, unknown = 0, 0, {}
    for key, c, b, rec, t, sp, bi in leave(fl):
        if rec is None or fl.target(rec) is not None:
            continue
        p = scan.callee(rec)
        n += 1
        if rec.get("crate", "starlit").startswith("starlit"):
            continue
        if environment(p):
            src += 1
            continue
        ok = rec.get("crate") in CRATES and all(m in PURE for _, m in modules(p))
        if not ok:
            unknown.setdefault(p, "%s at %s" % (b.path, scan.line(sp)))
    cx.note("%d calls leave the workspace, %d of them are sources" % (n, src))
    for p, w in sorted(unknown.items()):
        cx.ob(False, "c28:unknown:" + p, "the result of %s may depend on the environment" % p, w)
    cx.ob(n > 50 and src > 0, "c28:calls", "the calls of the program are not recognised")
    cx.note("marked values: %d, marked fields: %s" % (
        len(fl.loc), ", ".join("%s.%d" % k for k in sorted(fl.fld))))
    check(cx, fl, "c28", "the environment")


def check(cx, fl, tag, what):
    """Marks reach nothing but log output."""
    n = 0
    for (key, bi), (p, why, at_, k2) in sorted(fl.effects.items(), key=str):
        c, b = fl.bodies[key]
        t = b.blocks[bi]["t"]
        if harmless(fl, c, b, p, t, k2):
            continue
        cx.ob(False, "%s:branch:%s:%s" % (tag, scan.base(b.path), p), "whether %s is called depends "
              "on %s (%s)" % (p, what, why), at_)
    for key, (c, b) in fl.bodies.items():
        for rec, t, sp, bi in scan.calls(b):
            n += 1
            if rec is None:
                continue
            p = scan.callee(rec)
            if log_sink(p, c, b, t) or not output(p):
                continue
            for o in t[2]:
                w = fl.operand(key, o)
                cx.ob(not w, "%s:output:%s" % (tag, scan.base(b.path)),
                      "%s gets a value that depends on %s (%s)" % (p, what, w),
                      "%s at %s" % (b.path, scan.line(sp)))
        pb = scan.base(b.path)
        if pb.startswith("starlit::solver::") or " as starlit::proof::Proof>" in pb:
            cx.ob(key not in fl.ret, "%s:result:%s" % (tag, pb), "the result of %s depends on %s (%s)"
                  % (pb, what, fl.why_ret(key)), pb)
    for (a, i), w in sorted(fl.fld.items()):
        cx.ob(a == LOGGER or a.startswith("starlit::Args"), "%s:field:%s.%d" % (tag, a, i),
              "a field of %s depends on %s (%s)" % (a, what, w), a)
    cx.note("%d calls examined" % n)


def output(p):
    return p in ("std::io::_print", "std::process::exit", "std::process::abort") or \
        p.startswith("flussab::") or p.startswith("starlit::proof::") or \
        " as starlit::proof::Proof>" in p or p.startswith("starlit::solver::") or \
        p.startswith("std::io::Write::") or " as std::io::Write>" in p


def harmless(fl, c, b, p, t, k2):
    """Calls that have no effect but their result (which carries the mark)."""
    if k2 is not None:
        return p.startswith(LOGGER) or "as starlit::log::HasLogger>" in p
    ms = modules(p)
    if not ms or any(m not in PURE and m != "time" for _, m in ms):
        return False
    if p.startswith(("std::io::", "std::process::", "std::fs::")):
        return False
    return not any(fl.mutable(c, b.locals[o[1][0]][0]) for o in t[2] if o[0] in ("c", "m"))
