"""Extracts facts (types, MIR, ...) from the current working tree of /repo.

The compiler (through the driver in /verif/driver) re-reads the sources whenever any file of the
tree differs from the one the cached facts were made from.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
DRIVER_DIR = os.path.join(VERIF, "driver")
DRIVER = os.path.join(DRIVER_DIR, "target", "release", "starlit-facts")
REPO = os.environ.get("STARLIT_REPO", "/repo")

SKIP_DIRS = {"target", ".git"}


class ExtractError(Exception):
    pass


def _hash_tree(h, root, skip=SKIP_DIRS):
    for d, dirs, files in sorted(os.walk(root)):
        dirs[:] = sorted(x for x in dirs if x not in skip)
        for f in sorted(files):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())


def tree_hash(profile):
    h = hashlib.sha256()
    h.update(profile.encode())
    h.update(REPO.encode())
    _hash_tree(h, REPO)
    _hash_tree(h, os.path.join(DRIVER_DIR, "src"))
    return h.hexdigest()[:24]


def _env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def build_driver():
    src = os.path.join(DRIVER_DIR, "src")
    if os.path.exists(DRIVER):
        t = os.path.getmtime(DRIVER)
        if all(os.path.getmtime(os.path.join(src, f)) <= t for f in os.listdir(src)):
            return
    r = subprocess.run(
        ["cargo", "+nightly", "build", "--release", "--offline"],
        cwd=DRIVER_DIR, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(DRIVER):
        raise ExtractError("cannot build the facts driver:\n" + r.stdout[-4000:])


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=_env(),
                          stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


def facts_dir(profile="release"):
    """Returns a directory holding the facts of the current tree."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        build_driver()
        hsh = tree_hash(profile)
        out = os.path.join(CACHE, "facts-%s-%s" % (profile, hsh))
        if os.path.exists(os.path.join(out, "ok")):
            os.utime(os.path.join(out, "ok"))
            return out
        _prune()
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        target = os.path.join(CACHE, "target")
        # force the workspace crates (only those) through the driver again
        prof_dir = os.path.join(target, "release" if profile == "release" else "debug")
        for sub in ("build", ".fingerprint", "deps"):
            d = os.path.join(prof_dir, sub)
            if os.path.isdir(d):
                for f in os.listdir(d):
                    if f.startswith(("starlit", "libstarlit")):
                        p = os.path.join(d, f)
                        shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
        shutil.rmtree(os.path.join(prof_dir, "incremental"), ignore_errors=True)
        env = _env()
        env.update({
            "STARLIT_FACTS_DIR": tmp,
            "LD_LIBRARY_PATH": sysroot() + "/lib",
            "RUSTC_WORKSPACE_WRAPPER": DRIVER,
            "CARGO_TARGET_DIR": target,
            "CARGO_INCREMENTAL": "0",
        })
        cmd = ["cargo", "+nightly", "check", "--workspace", "--offline"]
        if profile == "release":
            cmd.insert(3, "--release")
        r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        need = ["starlit.json", "starlit-bin.json", "starlit_macros.json"]
        if r.returncode != 0:
            raise ExtractError("the tree does not build:\n" + r.stdout[-4000:])
        for f in need:
            if not os.path.exists(os.path.join(tmp, f)):
                raise ExtractError("no facts for %s were produced:\n%s" % (f, r.stdout[-4000:]))
        with open(os.path.join(tmp, "ok"), "w") as fh:
            fh.write(hsh)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        return out


def _prune(keep=20):
    ds = []
    for f in os.listdir(CACHE):
        if f.startswith("facts-"):
            p = os.path.join(CACHE, f)
            ds.append((os.path.getmtime(p), p))
    ds.sort(reverse=True)
    for _, p in ds[keep:]:
        shutil.rmtree(p, ignore_errors=True)


if __name__ == "__main__":
    print(facts_dir(sys.argv[1] if len(sys.argv) > 1 else "release"))
