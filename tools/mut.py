#!/usr/bin/env python3
"""Runs checks against small source changes.

mut.py [-t] [-x] NAME_PATTERN...   -t also runs the stable tests, -x lists only

The changes are listed in mutants.txt: blocks

  @ name | properties | kind (bug or same)
  file
  <<<
  old text
  ===
  new text
  >>>

(several file/<<</>>> parts per block allowed).  `bug` changes have to be reported by each listed
check, `same` changes (behaviour preserved) must leave every listed check quiet.
"""
import fnmatch, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
SCR = "/tmp/mutrepo%d_" % os.getpid()


def load():
    out = []
    for fn in sorted(os.listdir(HERE)):
        if not (fn.startswith("mutants") and fn.endswith(".txt")):
            continue
        cur = None
        lines = open(os.path.join(HERE, fn)).read().split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("@ "):
                n, p, k = [x.strip() for x in l[2:].split("|")]
                cur = (n, p.replace(",", " ").split(), k, [])
                out.append(cur)
            elif l.strip() == "<<<":
                f = lines[i - 1].strip()
                if f == ">>>":
                    f = cur[3][-1][0]
                j = i + 1
                old, new, tgt = [], [], None
                tgt = old
                while lines[j].strip() != ">>>":
                    if lines[j].strip() == "===":
                        tgt = new
                    else:
                        tgt.append(lines[j])
                    j += 1
                cur[3].append((f, "\n".join(old), "\n".join(new)))
                i = j
            i += 1
    return out


def one(m, tests, only, verbose, slot):
    name, props, kind, parts = m
    scr = "%s%d" % (SCR, slot)
    shutil.rmtree(scr, ignore_errors=True)
    shutil.copytree("/repo", scr, ignore=shutil.ignore_patterns("target", ".git"))
    out, bad = [], 0
    for f, old, new in parts:
        p = os.path.join(scr, f)
        s = open(p).read()
        if s.count(old) != 1:
            # the file may have comment lines in between
            rx = r"\n(?:[ ]*//[^\n]*\n)*".join(re.escape(x) for x in old.split("\n"))
            if len(re.findall(rx, s)) == 1:
                old = re.search(rx, s).group(0)
        if s.count(old) != 1:
            return ["!! %s: text occurs %d times in %s" % (name, s.count(old), f)], 1
        open(p, "w").write(s.replace(old, new))
    env = dict(os.environ, STARLIT_REPO=scr)
    if tests:
        r = subprocess.run(["cargo", "test", "--workspace", "--offline", "-q"], cwd=scr,
                           env=dict(os.environ, CARGO_TARGET_DIR="/tmp/mut_target%d" % slot),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            out.append("-- %s: tests or build fail" % name)
            if verbose:
                out.append(r.stdout[-2000:])
            if kind == "bug":
                return out, 0
    for p in (only or props):
        r = subprocess.run([os.path.join(HERE, "..", "check"), p], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        good = r.returncode == (1 if kind == "bug" else 0)
        if not good:
            bad += 1
        out.append("%s %-36s %s %s rc=%d" % ("ok" if good else "XX", name, kind, p, r.returncode))
        if not good or verbose:
            out.append("     " + "\n     ".join(r.stdout.strip().split("\n")[-12:]))
    shutil.rmtree(scr, ignore_errors=True)
    return out, bad


def main():
    import queue
    from concurrent.futures import ThreadPoolExecutor
    args = sys.argv[1:]
    pats = [a for a in args if not a.startswith("-")]
    only = [a[2:] for a in args if a.startswith("-p")]
    ms = [m for m in load() if not pats or any(fnmatch.fnmatch(m[0], p) or p in m[1] for p in pats)]
    if "-A" in args:            # every edit that keeps the behaviour against every check
        import json
        man = json.load(open(os.path.join(HERE, "..", "MANIFEST.json")))
        only = [c["property"] if "property" in c else c["id"] for c in man["checks"]]
        ms = [m for m in ms if m[2] == "same"]
    slots = queue.Queue()
    n = int(os.environ.get("SLOTS", "7"))
    for i in range(n):
        slots.put(i)

    def job(m):
        k = slots.get()
        try:
            return one(m, "-t" in args, only, "-v" in args, k)
        except Exception as e:
            return ["!! %s: %r" % (m[0], e)], 1
        finally:
            slots.put(k)
    bad = 0
    with ThreadPoolExecutor(n) as ex:
        for out, b in ex.map(job, ms):
            bad += b
            print("\n".join(out))
            sys.stdout.flush()
    for i in range(n):
        shutil.rmtree("%s%d" % (SCR, i), ignore_errors=True)
    print("%d mutants, %d problems" % (len(ms), bad))


main()
