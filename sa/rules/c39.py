"""Verbosity options, by abstract interpretation of the command line tool's main and of the logger.

The fields that the logger's setters write are determined by interpreting each setter for each of its
arguments.  main is interpreted for arbitrary options.  At every message and when solving starts, the
logger of the solver must hold, on every abstract path, what its setters produce for the level that
belongs to the number of -v and -q options and for the --log-src option.  The logger is then interpreted
in each of these states: it writes a message exactly if its level is enabled (obligations of C27) and
appends the source location exactly if that was requested."""
from .common import *
from ..state import State as St
from . import cli, c27

RULE = "state of the logger as a function of the options on every abstract path of main"
ASSUMES = ["clap fills the options as declared; -q and -v exclude each other (declared)"]
BOTH_PROFILES = False

LG = c27.LG


def produced(cx, method, x):
    """Fields of the logger that a setter gives a new value for argument x, on its paths."""
    key = cx.key(LG + "::" + method)
    i = cx.param(key, LG)
    e, a, outs = cx.run(key, args={1 - i: x}, pr=c27.uncalled(cx))
    res = []
    for s, _ in outs:
        v0, v1 = View(cx, mk("pt", a[i]), LG), View(cx, e.read(s, a[i]), LG)
        res.append({n: raw(getattr(v1, n)) for n in c27.configuration(cx)
                    if raw(getattr(v1, n)) is not raw(getattr(v0, n))})
    return res


def raw(x):
    return getattr(x, "t", x)


def run(cx):
    names = [v["name"] for v in c27.levels(cx)]
    order = ["Info", "Verbose", "Debug", "Trace"]
    cx.ob(set(order) <= set(names), "c39:levels", "the levels of the logger are not the known ones", LG)
    level = {}
    for k, n in enumerate(order):
        level[k] = one(cx, "set_log_level", t.en(1, t.en(names.index(n))), n)
    level[None] = one(cx, "set_log_level", t.en(0), "none")
    source = {b: one(cx, "log_source_locations", TRUE if b else FALSE, str(b)) for b in (True, False)}
    options(cx, level, source)
    locations(cx, names)
    c27.gate(Only(cx, "c27:suppressed", "c27:emitted", "c27:runs"))


def one(cx, method, x, what):
    rs = produced(cx, method, x)
    cx.ob(len(rs) == 1, "c39:setter:%s:%s" % (method, what), "%s does not have one known result" % method,
          cx.where(LG + "::" + method))
    return rs[0] if rs else {}


class Options(cli.Cli):
    def partition(self, eng, st):
        """Loops keep apart what the logger is set to and the kinds of options."""
        out = []
        v, q = self.field("verbose"), self.field("quiet")
        if v is not None and q is not None:
            out.append((("A",), st.decide(t.eq(q, ZERO)), st.decide(t.eq(v, ZERO))))
        for b, v in st.mem.items():
            if b[0] != "L":
                continue
            body, _ = eng.body(eng.ctxinfo[b[1]][2])
            ty = body.locals[b[2]][0] if body is not None else ""
            if ty.startswith(SOLVER):
                v = raw(View(self.cx, v, SOLVER).ctx.logger)
            elif ty != LG:
                continue
            v = View(self.cx, v, LG)
            out.append((b, tuple(raw(getattr(v, n)).id for n in c27.configuration(self.cx))))
        return tuple(sorted(out, key=str))


def given(x, v, k):
    """The value x when the level option v is given k times."""
    return t.subst(x, {v: I(k)}) if k is not None and k < 3 else x


def options(cx, level, source):
    only = Only(cx, "c39")
    mon = Options(only)
    pr = cli.table(only, mon)
    for x in [x for x in pr if x.startswith((LG + "::", "<" + LG)) and not x.endswith("::time")]:
        del pr[x]           # the logger is interpreted
    n = {"log": 0, "solve": 0}

    def known(eng, st, lg, c, what):
        n[what] += 1
        v, q, src = mon.field("verbose"), mon.field("quiet"), mon.field("log_src")
        if v is None or q is None or src is None:
            from ..check import Unknown
            raise Unknown("options")
        view = View(cx, lg, LG)
        cases = [([t.lt(ZERO, q), t.eq(v, ZERO)], None)]
        cases += [([t.eq(q, ZERO), t.eq(v, I(k)) if k < 3 else t.le(I(k), v)], k) for k in range(4)]
        for cond, k in cases:
            for b in (True, False):
                s = st.copy()
                if not all(s.assume(x) for x in cond) or not s.assume(src if b else t.notb(src)):
                    continue
                for want, key, msg in ((level[k], "level", "the log level does not follow from the options"),
                                       (source[b], "source", "source locations are not reported as the "
                                        "options say")):
                    ok = all(eqv(s, given(raw(getattr(view, f)), v, k), x) for f, x in want.items())
                    cx.ob(ok, "c39:%s:%s" % (key, what), msg + " when %s" % (
                        "a message is logged" if what == "log" else "solving starts"), at(c.fr, c.span))

    def logged(eng, st, c):
        known(eng, st, eng.read(st, arg(c, LG)), c, "log")
        return [(st, t.UNIT)]
    pr[LG + "::log"] = logged
    solve = pr[cli.SV + "solve"]

    def solving(eng, st, c):
        sv = arg_view(eng, cx, st, c, SOLVER)
        known(eng, st, raw(sv.ctx.logger), c, "solve")
        return solve(eng, st, c)
    pr[cli.SV + "solve"] = solving
    keys = cx.cli.find(cli.MAIN)
    e = cx.engine(mon, pr, crates=[cx.cli, cx.lib])
    st = St()
    st.mem[cli.NEXT] = ZERO
    e.analyse(keys[0], [], st)
    e.deadline = None
    cx.ob(n["solve"] > 0, "c39:solves", "the tool never solves", cli.MAIN)
    cx.note("%d messages, %d solver runs" % (n["log"], n["solve"]))


def locations(cx, names):
    """The location is written exactly if requested."""
    key = next((k for k in cx.lib.find(c27.LOG) if "<impl" in k), None) or cx.key(c27.LOG)
    ib, il = cx.param(key, "&" + LG), cx.param(key, c27.LEVEL)
    top = len(names) - 1
    skey = cx.key(LG + "::log_source_locations")
    i = cx.param(skey, LG)
    w = cx.where(c27.LOG)
    for s0, lg in c27.setting(cx, top):
        for b in (True, False):
            st = St()
            base = mk("sym", "a%d" % i)
            st.mem[("P", base)] = lg
            e, a, outs = cx.run(skey, args={1 - i: TRUE if b else FALSE}, st=st,
                                pr=c27.uncalled(cx))
            for s1, _ in outs:
                lg2 = e.read(s1, a[i])
                for m in range(len(names)):
                    s2 = St()
                    mon = c27.Lines(cx)
                    s2.mem[("P", mk("sym", "a%d" % ib))] = lg2
                    e2, a2, outs2 = cx.run(key, args={il: t.en(m)}, st=s2, rule=mon,
                                           pr=c27.table(cx, mon))
                    for s, _ in outs2:
                        has = any("location" in str(x.args[1]) for x in events(s, "out"))
                        cx.ob(has == b, "c39:location", "the source location is %s although it was %s"
                              % (("written", "not requested") if has else ("not written", "requested")), w)
