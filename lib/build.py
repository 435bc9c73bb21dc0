#!/usr/bin/env python3
"""Builds KDE/clazy from /repo's working tree into /verif/build/clazy (incremental).

Every check calls ensure_built() first.  The build directory is our own (never /repo/_build), so a check
sees exactly what the sources in /repo say now.  Besides ninja's mtimes a content manifest guards against a
source that changed without its mtime moving forward."""
import fcntl, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CLAZY_REPO", "/repo")
BUILD = os.environ.get("CLAZY_VBUILD", os.path.join(VERIF, "build", "clazy"))
LLVM = "/usr/lib/llvm-20"
ENV = {
    "HOME": "/root", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
    "PATH": LLVM + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "LLVM_ROOT": LLVM,
    "CCACHE_DIR": os.path.join(VERIF, "build", "ccache"),
    "CCACHE_BASEDIR": "/", "CCACHE_NOHASHDIR": "1", "CCACHE_MAXSIZE": "400M",
}


class BuildError(Exception):
    pass


def _sources():
    out = {}
    for base, dirs, files in os.walk(REPO):
        rel = os.path.relpath(base, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d in ("src", "cmake", "readmes", "docs")]
        for f in files:
            p = os.path.join(base, f)
            r = os.path.relpath(p, REPO)
            if r.startswith("docs") and not r.endswith((".txt",)):
                continue
            try:
                with open(p, "rb") as fh:
                    out[r] = hashlib.sha1(fh.read()).hexdigest()
            except OSError:
                pass
    return out


def ensure_built(verbose=False):
    os.makedirs(os.path.dirname(BUILD), exist_ok=True)
    lock = open(os.path.join(os.path.dirname(BUILD), ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        mf = os.path.join(BUILD, ".verif-manifest.json")
        cur = _sources()
        old = {}
        try:
            old = json.load(open(mf))
        except (OSError, ValueError):
            pass
        env = {**os.environ, **ENV}
        for k in ("CLANGXX", "CLAZY_CXX", "CLAZY_CHECKS", "QT_SELECT", "CXXFLAGS", "CFLAGS"):
            env.pop(k, None)
        log = os.path.join(os.path.dirname(BUILD), "build.log")
        if not os.path.exists(os.path.join(BUILD, "build.ninja")):
            _run(["cmake", "-S", REPO, "-B", BUILD, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
                  "-DCMAKE_C_COMPILER=/usr/bin/clang-20", "-DCMAKE_CXX_COMPILER=/usr/bin/clang++-20",
                  "-DCMAKE_CXX_COMPILER_LAUNCHER=ccache",
                  "-DLLVM_ROOT=" + LLVM, "-DCLAZY_BUILD_CLANG_TIDY=ON", "-DTEST_OPTIONS=--jobs=1",
                  "-DGIT_EXECUTABLE=OFF",
                  "-DCMAKE_SHARED_LINKER_FLAGS=-fuse-ld=lld", "-DCMAKE_MODULE_LINKER_FLAGS=-fuse-ld=lld",
                  "-DCMAKE_EXE_LINKER_FLAGS=-fuse-ld=lld"], env, log)
        else:
            # a changed source must not look older than what was built from its previous content
            now = time.time()
            for f, h in cur.items():
                if old.get(f) != h and old:
                    stale = os.path.join(REPO, f)
                    st = os.stat(stale)
                    newest = old.get("__time__", 0)
                    if st.st_mtime <= newest:
                        # do not touch /repo: drop our objects instead (ccache makes this cheap)
                        _run(["ninja", "-C", BUILD, "-t", "clean"], env, log)
                        break
        if old and {k: v for k, v in old.items() if k != "__time__"} == cur and _products_ok():
            return
        _run(["ninja", "-C", BUILD], env, log)
        if not _products_ok():
            raise BuildError("build products missing")
        cur["__time__"] = time.time()
        with open(mf, "w") as fh:
            json.dump(cur, fh)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _products_ok():
    return all(os.path.exists(os.path.join(BUILD, p)) for p in
               ("lib/ClazyPlugin.so", "lib/ClazyClangTidy.so", "bin/clazy-standalone", "clazy"))


def _run(cmd, env, log):
    with open(log, "a") as fh:
        fh.write("+ " + " ".join(cmd) + "\n")
        fh.flush()
        r = subprocess.run(cmd, env=env, stdout=fh, stderr=subprocess.STDOUT)
    if r.returncode:
        tail = open(log, errors="replace").read()[-4000:]
        raise BuildError("%s failed (%d)\n%s" % (cmd[0], r.returncode, tail))


if __name__ == "__main__":
    t = time.time()
    ensure_built(True)
    print("built in %.1f s" % (time.time() - t))
