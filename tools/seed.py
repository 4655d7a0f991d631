#!/usr/bin/env python3
"""Builds and confirms the planted bugs of /verif/seeded from the descriptions in tools/seeds.

seed.py [-n] NAME...   -n: only write the files
"""
import glob, json, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "..", "seeded")
SCR = "/tmp/seedrepo"
TGT = "/tmp/seed_target"
DEMO = """#!/bin/bash
# Builds main.rs against the library in the current directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
t=$(mktemp -d) || exit 2
trap 'find "$t" -delete' EXIT
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
mkdir "$t/src" && cp "$d"/*.rs "$t/src/" || exit 2
cp "$r/Cargo.lock" "$t/" || exit 2
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
starlit = { path = "$r/starlit" }
%(deps)s
EOF
cd "$t" && mkdir work && CARGO_TARGET_DIR="$t/target" cargo build --offline -q %(rel)s || exit 2
cd work && timeout 200 "$t/target/%(dir)s/demo"
"""
CLI = """#!/bin/bash
# Builds the command line tool of the current directory and runs cli.sh with it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'find "$t" -delete' EXIT
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
CARGO_TARGET_DIR="$t/target" cargo build --offline -q -p starlit-cli || exit 2
mkdir "$t/work" && cd "$t/work" && STARLIT="$t/target/debug/starlit" timeout 200 bash "$d/cli.sh"
"""


def parse(fn):
    head, parts, files = {}, [], {}
    lines = open(fn).read().split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        m = re.match(r"(property|needs|breaks|kind|release|deps): (.*)", l)
        if m and not files:
            head[m.group(1)] = m.group(2)
        elif l.strip() == "<<<":
            f = lines[i - 1].strip()
            j = i + 1
            old, new = [], []
            tgt = old
            while lines[j].strip() != ">>>":
                if lines[j].strip() == "===":
                    tgt = new
                else:
                    tgt.append(lines[j])
                j += 1
            parts.append((f, "\n".join(old), "\n".join(new)))
            i = j
        elif l.startswith("%%% "):
            j = i + 1
            while j < len(lines) and not lines[j].startswith("%%% "):
                j += 1
            files[l[4:].strip()] = "\n".join(lines[i + 1:j]).rstrip("\n") + "\n"
            i = j - 1
        i += 1
    return head, parts, files


def sh(cmd, cwd, **env):
    r = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **env), shell=isinstance(cmd, str),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def main():
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    allf = sorted(os.path.basename(x)[:-4] for x in glob.glob(HERE + "/seeds/*.txt"))
    bad = []
    for n in allf:
        if names and not any(n.startswith(x) for x in names):
            continue
        head, parts, files = parse(HERE + "/seeds/%s.txt" % n)
        shutil.rmtree(SCR, ignore_errors=True)
        shutil.copytree("/repo", SCR, ignore=shutil.ignore_patterns("target"))
        sh("git checkout -q -- .", SCR)
        for f, old, new in parts:
            p = os.path.join(SCR, f)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit("%s: text occurs %d times in %s:\n%s" % (n, s.count(old), f, old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=SCR, text=True)
        d = os.path.join(OUT, n)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": head["property"], "needs": head["needs"],
                   "what_it_breaks": head["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rel = head.get("release") == "yes"
        open(d + "/demo.sh", "w").write(
            CLI if head.get("kind") == "cli" else
            DEMO % {"deps": head.get("deps", ""), "rel": "--release" if rel else "",
                    "dir": "release" if rel else "debug"})
        for f, s in files.items():
            open(d + "/" + f, "w").write(s)
        if any("mod common;" in s for s in files.values()):
            shutil.copy(HERE + "/seeds/common.rs", d + "/common.rs")
        if "-n" in sys.argv:
            continue
        res = []
        rc, o = sh("bash %s/demo.sh" % d, SCR)
        res.append("demo patched rc=%d" % rc)
        if rc == 0 or "-v" in sys.argv:
            res.append(o[-1500:])
        ok = rc != 0
        if rc == 2:
            ok = False
            res.append(o[-1500:])
        rc, o2 = sh("cargo test --workspace --offline -q", SCR, CARGO_TARGET_DIR=TGT)
        res.append("tests rc=%d" % rc)
        if rc:
            ok = False
            res.append(o2[-1500:])
        prop = head["property"]
        rc, o3 = sh([HERE + "/../check", prop], HERE, STARLIT_REPO=SCR)
        caught = rc == 1 and "VIOLATION property=%s" % prop in o3
        res.append("check %s rc=%d %s" % (prop, rc, "CAUGHT" if caught else "MISSED"))
        if not caught:
            res.append(o3[-600:])
        sh("git checkout -q -- .", SCR)
        rc, o = sh("bash %s/demo.sh" % d, SCR)
        res.append("demo clean rc=%d" % rc)
        if rc:
            ok = False
            res.append(o[-1500:])
        if not ok or not caught:
            bad.append(n)
        print("%s %s: %s" % ("ok" if ok else "XX", n, "; ".join(res)))
        sys.stdout.flush()
    shutil.rmtree(SCR, ignore_errors=True)
    print("problems or misses:", bad)


main()
