#!/usr/bin/env python3
"""Brings the simulator up to date with /repo's working tree. The sources are mirrored by content into build/src (so that time stamps do
not matter) and compiled from there, with a compiler cache of its own in build/ccache."""
import fcntl, os, shutil, subprocess, sys, filecmp
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("NGSAMG_REPO", "/repo")
B = os.environ.get("NGSAMG_SIM_BUILD", ROOT + "/build")

def mirror():
    dst0 = B + "/src"
    want = set()
    for d, dirs, files in os.walk(REPO + "/src"):
        rel = os.path.relpath(d, REPO + "/src")
        for f in files:
            if not f.endswith((".cpp", ".hpp", ".h", ".inl", ".hxx")): continue
            s = os.path.join(d, f); t = os.path.normpath(os.path.join(dst0, rel, f))
            want.add(t)
            if os.path.isfile(t) and open(t, "rb").read() == open(s, "rb").read(): continue
            os.makedirs(os.path.dirname(t), exist_ok=True)
            with open(t + ".tmp", "wb") as o: o.write(open(s, "rb").read())
            os.replace(t + ".tmp", t)
    for d, dirs, files in os.walk(dst0):
        for f in files:
            t = os.path.normpath(os.path.join(d, f))
            if t not in want: os.remove(t)

def build(quiet=True):
    os.makedirs(B, exist_ok=True)
    with open(B + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mirror()
        subprocess.run([sys.executable, HERE + "/gen.py"], check=True, env=dict(os.environ, NGSAMG_SRC=B + "/src", NGSAMG_SIM_BUILD=B))
        env = dict(os.environ)
        for k in [k for k in env if k.startswith("CCACHE_")]: del env[k]
        env.update(CCACHE_DIR=B + "/ccache", CCACHE_SLOPPINESS="include_file_mtime,include_file_ctime,time_macros", CCACHE_NOHASHDIR="1", CCACHE_COMPILERCHECK="content",
                   CCACHE_MAXSIZE="3G", CCACHE_TEMPDIR=B + "/ccache/tmp")
        r = subprocess.run(["ninja", "-C", B, B + "/simrun"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-6000:]); return False
        if not quiet: print(r.stdout[-400:])
    return True

if __name__ == "__main__":
    sys.exit(0 if build(False) else 3)
