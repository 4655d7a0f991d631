"""Runs the check of one property: check.py Cxx [--tier quick|thorough]."""
import importlib
import json
import os
import sys
import time
import traceback

from . import engine, extract, facts, prims, terms as t
from .state import State

VERIF = extract.VERIF


class Unknown(Exception):
    """The tree does not have the shape the check needs; no verdict."""


class Layout(object):
    """Where the fields of a structure are, found by type if that is unique, else by name."""

    def __init__(self, crate):
        self.crate = crate
        self.by_path = {}
        for s, d in crate.types.items():
            if d["k"] == "adt":
                self.by_path.setdefault(d["path"], (s, d))

    def adt(self, path):
        if path not in self.by_path:
            raise Unknown("no type %s" % path)
        return self.by_path[path]

    def idx(self, path, name, ty=None):
        _, d = self.adt(path)
        fs = d["variants"][0]["fields"]
        for i, f in enumerate(fs):
            if f["name"] == name:
                return i, len(fs)
        if ty is not None:
            hit = [i for i, f in enumerate(fs) if f["ty"] == ty or ty in f["ty"]]
            if len(hit) == 1:
                return hit[0], len(fs)
        raise Unknown("no field %s in %s" % (name, path))

    def variant(self, path, name):
        _, d = self.adt(path)
        for i, v in enumerate(d["variants"]):
            if v["name"] == name:
                return i
        raise Unknown("no variant %s in %s" % (name, path))

    def newtype(self, path):
        s, d = self.adt(path)
        fs = d["variants"][0]["fields"]
        nz = [f for f in fs if not self._zst(f["ty"])]
        return len(nz) == 1

    def _zst(self, s):
        d = self.crate.types.get(s, {})
        return d.get("size") == 0

    def get(self, term, path, name, ty=None):
        i, n = self.idx(path, name, ty)
        if self.newtype(path):
            return term
        return t.fld(term, i, n)

    def elem(self, path, name, ty=None):
        """Path element(s) of a field."""
        i, n = self.idx(path, name, ty)
        return () if self.newtype(path) else (("f", i, n),)

    def mk(self, path, **kw):
        _, d = self.adt(path)
        fs = d["variants"][0]["fields"]
        vals = [kw.get(f["name"], t.UNIT) for f in fs]
        if self.newtype(path):
            return [v for f, v in zip(fs, vals) if not self._zst(f["ty"])][0]
        return t.st(*vals)


class Cx(object):
    """Context of one check run over one build profile."""

    def __init__(self, pid, tier, profile, shared):
        self.pid = pid
        self.tier = tier
        self.profile = profile
        self.shared = shared
        self.dir = extract.facts_dir(profile)
        self._crates = {}
        self.lay = Layout(self.lib)
        self.engines = []

    def crate(self, name):
        c = self._crates.get(name)
        if c is None:
            c = self._crates[name] = facts.load(self.dir, name + ".json")
        return c

    @property
    def lib(self):
        return self.crate("starlit")

    @property
    def cli(self):
        return self.crate("starlit-bin")

    @property
    def macros(self):
        return self.crate("starlit_macros")

    # ------------------------------------------------------------ roots
    def key(self, path, crate=None, need=True):
        c = crate or self.lib
        ks = c.find(path)
        if not ks:
            if need:
                raise Unknown("no function %s" % path)
            return None
        return ks[0]

    def engine(self, rule=None, pr=None, exact=False, crates=None, steps=3000000):
        e = engine.Engine(crates or [self.lib], rule, exact)
        e.prims = prims.allp() if pr is None else pr
        e.max_steps = steps
        e.deadline = self.shared["deadline"]
        if self.shared.get("precise"):
            e.merge_limit, e.join_limit, e.keep_limit = 80, 240, 24
        e.reports = self.shared["violations"]
        self.engines.append(e)
        return e

    def params(self, key):
        """Parameter types of a function."""
        b = self.lib.body(key) or self.cli.body(key)
        return [b.locals[i + 1][0] for i in range(b.argc)]

    def param(self, key, what):
        """Index of the parameter whose (referenced) type contains the string."""
        hit = [i for i, p in enumerate(self.params(key)) if what in p]
        if len(hit) != 1:
            raise Unknown("parameter of type %s of %s" % (what, key))
        return hit[0]

    def run(self, path, args=None, st=None, rule=None, pr=None, exact=False, eng=None):
        """Analyses a function from an arbitrary state: (engine, args, outcomes)."""
        key = path if self.lib.body(path) is not None else self.key(path)
        e = eng or self.engine(rule, pr, exact)
        n = self.lib.body(key).argc
        a = [t.mk("sym", "a%d" % i) for i in range(n)]
        if args:
            for i, v in args.items():
                a[i] = v
        st = st or State()
        if rule is not None and getattr(rule, "preds", None):
            st.preds = rule.preds
        outs = e.analyse(key, a, st)
        return e, a, outs

    # ------------------------------------------------------------ results
    def ob(self, ok, key, msg, where=None):
        """Records one obligation; a failed one is a violation."""
        s = self.shared
        s["obligations"][key] = s["obligations"].get(key, 0) + 1
        if not ok:
            self.violation(key, msg, where)
        return ok

    def violation(self, key, msg, where=None):
        v = self.shared["violations"]
        if key not in v:
            v[key] = (msg, where or "")

    def note(self, msg):
        self.shared["notes"].setdefault(msg)

    def where(self, path):
        k = self.lib.find(path) or []
        b = self.lib.body(k[0]) if k else None
        return "%s (%s)" % (path, b.span if b else "?")


def span_of(cx, fr, span):
    if fr is None:
        return ""
    return "%s at %s" % (fr.body.path, span)


def load_known(pid):
    known, fixed = {}, []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p):
        l = l.strip()
        if l.startswith("finding:"):
            parts = l.split(None, 3)
            if parts[1] == "property=" + pid:
                known[parts[2][len("key="):]] = parts[3]
    return known


def attempt(mod, pid, tier, profiles, limit, precise):
    shared = {"violations": {}, "obligations": {}, "notes": {}, "deadline": limit,
              "precise": precise}
    engines = []
    try:
        for prof in profiles:
            cx = Cx(pid, tier, prof, shared)
            try:
                mod.run(cx)
            except engine.Limit as x:
                cx.violation("not-established",
                             "the property could not be established: %s" % x)
            engines += cx.engines
    except extract.ExtractError as x:
        if not precise:
            print("ERROR property=%s %s" % (pid, x))
        return 3, shared, engines
    except Unknown as x:
        if not shared["violations"]:
            if not precise:
                print("ERROR property=%s the tree does not have the expected shape: %s" % (pid, x))
            return 3, shared, engines
        shared["notes"]["incomplete: %s" % x] = None
    except Exception:
        if not precise:
            traceback.print_exc()
            print("ERROR property=%s internal error" % pid)
        return 3, shared, engines
    return 0, shared, engines


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    try:
        mod = importlib.import_module("sa.rules." + pid.lower())
    except ImportError as x:
        print("ERROR property=%s no such check (%s)" % (pid, x))
        return 3
    profiles = ["release"] if tier == "quick" else ["release", "dev"]
    if getattr(mod, "BOTH_PROFILES", False):
        profiles = ["release", "dev"]
    limit = t0 + (700 if tier == "quick" else 3000)
    code, shared, engines = attempt(mod, pid, tier, profiles, limit, False)
    if code:
        return code
    known = load_known(pid)
    if set(shared["violations"]) - set(known):
        # Joining fewer paths is as sound and more precise: what it does not confirm was an
        # artefact of the joins.
        now = time.time()
        again = attempt(mod, pid, tier, profiles, min(limit, now + max(40, 3 * (now - t0))), True)
        if not again[0] and not set(again[1]["violations"]) - set(known):
            shared, engines = again[1], again[2]
            shared["notes"]["established with fewer joins of paths"] = None
    new = {}
    hits = []
    for k, (msg, where) in shared["violations"].items():
        if k in known:
            hits.append((k, msg))
        else:
            new[k] = (msg, where)
    fns, sites, loops, paths = set(), set(), set(), 0
    for e in engines:
        fns |= e.analysed
        sites |= e.callsites
        loops |= e.loops_done
        paths += e.npaths
    total = sum(shared["obligations"].values())
    ev = {
        "property": pid, "tier": tier, "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": (mod.__doc__ or "").strip(),
            "rule": getattr(mod, "RULE", (mod.__doc__ or "").strip().split("\n")[0]),
            "profiles": profiles,
            "functions_analysed": sorted(fns),
            "functions": len(fns),
            "call_sites": len(sites),
            "loops_with_invariant": len(loops),
            "abstract_paths": paths,
            "obligations": total,
            "obligation_kinds": {k: v for k, v in sorted(shared["obligations"].items())},
            "discharged": total - len(shared["violations"]),
            "notes": list(shared["notes"]),
        },
        "assumptions": list(getattr(mod, "ASSUMES", [])),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    ev["coverage"]["violation_details"] = [
        {"key": k, "message": m, "where": w} for k, (m, w) in new.items()]
    ev["coverage"]["known_findings_hit"] = [k for k, _ in hits]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evp = os.path.join(VERIF, "evidence", pid + ".json")
    for k, msg in hits:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known[k]))
    code = 0
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violation.txt")
        with open(rp, "w") as fh:
            for k, (m, w) in new.items():
                fh.write("%s\n  %s\n  %s\n" % (k, m, w))
        for k, (m, w) in new.items():
            print("  [%s] %s%s" % (k, m, " -- " + w if w else ""))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        code = 1
    elif total == 0:
        print("ERROR property=%s nothing was checked" % pid)
        return 3
    else:
        print("OK property=%s %d obligations, %d functions, %d paths, %.1f s"
              % (pid, total, len(fns), paths, time.time() - t0))
    with open(evp, "w") as fh:
        json.dump(ev, fh, indent=1)
    return code


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
