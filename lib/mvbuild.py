"""Builds /repo's current working tree out of tree, in /verif/.build/<content hash>.

Nothing is written in /repo or /opt/vp. The build directory is keyed by the contents of every source file,
so any edit to /repo gives a new build, and an unchanged tree reuses the previous one."""

import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MRCAL_REPO", "/repo")
BUILDROOT = os.path.join(VERIF, ".build")

_SKIP_DIRS = {".git", "doc", "analyses", "packaging", "__pycache__", "ltximg", "debian"}
_PRODUCT = re.compile(r"(\.o|\.d|\.so(\..*)?|\.docstring\.h|GENERATED\..*|generated\.h|\.pyc|\.tmp|py-symbol-refs(\.h)?)$")


class BuildError(Exception):
    pass


def source_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel == ".":
            dirs[:] = sorted(d for d in dirs if d not in _SKIP_DIRS)
        elif rel.split("/")[0] == "test":
            dirs[:] = []
        else:
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            p = f if rel == "." else os.path.join(rel, f)
            if _PRODUCT.search(f):
                continue
            if rel == "test" and not f.endswith((".c", ".h")):
                continue
            full = os.path.join(REPO, p)
            if os.path.isfile(full) and not os.path.islink(full):
                out.append(p)
    return out


def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        with open(os.path.join(REPO, f), "rb") as fd:
            d = fd.read()
        h.update(f.encode() + b"\0" + hashlib.sha256(d).digest())
    return h.hexdigest()[:16]


def _env():
    env = {k: v for k, v in os.environ.items()
           if k not in ("MAKEFLAGS", "CFLAGS", "CXXFLAGS", "LDFLAGS", "LIBRARY_PATH", "LD_LIBRARY_PATH", "PYTHONPATH",
                        "LD_PRELOAD", "MFLAGS")}
    env.update(LC_ALL="C.UTF-8", PATH="/usr/bin:/bin:/usr/sbin:/sbin", CPATH="/usr/include/suitesparse",
               PYTHONDONTWRITEBYTECODE="1", HOME=env.get("HOME", "/root"))
    return env


def build():
    """Returns the directory of a finished build of /repo's current tree"""
    os.makedirs(BUILDROOT, exist_ok=True)
    files = source_files()
    key = tree_hash(files)
    d = os.path.join(BUILDROOT, key)
    with open(os.path.join(BUILDROOT, key + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, ".complete")):
            return d
        if os.path.exists(d):
            shutil.rmtree(d)
        for f in files:
            dst = os.path.join(d, f)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copy(os.path.join(REPO, f), dst)
        import sysconfig
        S = sysconfig.get_config_var("EXT_SUFFIX")
        targets = ["mrcal/_mrcal" + S] + ["mrcal/_%s_npsp%s" % (m, S) for m in ("mrcal", "poseutils", "triangulation")]
        with open(os.path.join(d, "build.log"), "w") as log:
            rc = subprocess.call(["make", "-j%d" % (os.cpu_count() or 4), "NM=nm"] + targets, cwd=d, env=_env(),
                                 stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        if rc != 0:
            with open(os.path.join(d, "build.log")) as f:
                tail = f.read()[-3000:]
            raise BuildError("build of %s failed:\n%s" % (REPO, tail))
        open(os.path.join(d, ".complete"), "w").close()
        _prune(keep=d)
    return d


def _prune(keep, n=4):
    ds = [os.path.join(BUILDROOT, x) for x in os.listdir(BUILDROOT)]
    ds = [x for x in ds if os.path.isdir(x) and os.path.exists(os.path.join(x, ".complete")) and x != keep]
    ds.sort(key=os.path.getmtime)
    for x in ds[:-n] if n else ds:
        shutil.rmtree(x, ignore_errors=True)
        try:
            os.unlink(x + ".lock")
        except OSError:
            pass


def build_program(bdir, name, sources, libsources=(), compiler="gcc", flags=(), libs=()):
    """Compiles a harness program from /verif together with sources of the build copy. Cached in the build dir"""
    out = os.path.join(bdir, name)
    with open(out + ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = hashlib.sha256()
        for s in sources:
            with open(s, "rb") as f:
                h.update(f.read())
        h.update(repr((libsources, compiler, flags, libs)).encode())
        stamp = out + "." + h.hexdigest()[:12] + ".ok"
        if os.path.exists(stamp):
            return out
        objs = []
        jobs = []
        for s in list(sources) + [os.path.join(bdir, x) for x in libsources]:
            o = out + "." + os.path.basename(s) + ".o"
            cc = compiler
            lang = ["--std=gnu11"]
            if s.endswith((".cc", ".hh")):
                cc = {"gcc": "g++", "clang": "clang++"}[compiler]
                lang = ["--std=gnu++17"]
            cmd = [cc] + lang + ["-g", "-w", "-fPIC", "-I" + bdir, "-c", s, "-o", o] + list(flags)
            jobs.append((subprocess.Popen(cmd, cwd=bdir, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT), cmd))
            objs.append(o)
        for j, cmd in jobs:
            o, _ = j.communicate()
            if j.returncode:
                raise BuildError("%s failed:\n%s" % (" ".join(cmd), o.decode(errors="replace")[-3000:]))
        cc = {"gcc": "g++", "clang": "clang++"}[compiler]
        cmd = [cc] + objs + list(flags) + ["-o", out] + list(libs)
        r = subprocess.run(cmd, cwd=bdir, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("%s failed:\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-3000:]))
        open(stamp, "w").close()
    return out


if __name__ == "__main__":
    print(build())
