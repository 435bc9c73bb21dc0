#!/usr/bin/env python3
"""Development tool (no check uses it): tries planted bugs in a scratch worktree of /repo.
  seed.py [--no-tests] [--no-check] ID...     for each: apply, build, demo (clean and patched), stable tests, the property's check
"""
import json, os, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
W = os.environ.get("SEEDWT", "/tmp/wt")
VB = os.environ.get("SEEDVB", "/tmp/wtb/clazy")
import build


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, executable="/bin/bash", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


ENV = {**build.ENV, "PATH": "/opt/vp/bin:" + build.ENV["PATH"]}
ENV.pop("CCACHE_BASEDIR")


def rebuild():
    if not os.path.exists(W + "/_build/build.ninja"):
        r = sh("cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_C_COMPILER=/usr/bin/clang-20 -DCMAKE_CXX_COMPILER=/usr/bin/clang++-20 "
               "-DCMAKE_CXX_COMPILER_LAUNCHER=ccache -DLLVM_ROOT=/usr/lib/llvm-20 -DCLAZY_BUILD_CLANG_TIDY=ON -DTEST_OPTIONS=--jobs=1 -DGIT_EXECUTABLE=OFF" % (W, W), env=ENV)
        assert r.returncode == 0, r.stdout
    return sh("ninja -C %s/_build" % W, env=ENV)


def demo(i):
    r = sh("mkdir -p /tmp/seeddemo && rm -rf /tmp/seeddemo/%s && cp -r %s/seeded/%s /tmp/seeddemo/%s && rm -f /tmp/seeddemo/%s/*.diff && bash /tmp/seeddemo/%s/demo.sh" % (i, VERIF, i, i, i, i), cwd=W, env=ENV, timeout=320)
    return r.returncode, r.stdout[-800:]


def main():
    a = sys.argv[1:]
    tests, check, clean = "--no-tests" not in a, "--no-check" not in a, "--no-clean" not in a
    ids = [x for x in a if not x.startswith("--")]
    if not os.path.exists(W):
        print(sh("git -C /repo worktree prune; git clone -q /repo %s" % W).stdout)
    sh("git -C %s fetch -q; git -C %s reset -q --hard; git -C %s checkout -q --detach origin/HEAD" % (W, W, W))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    r = rebuild()
    assert r.returncode == 0, r.stdout[-3000:]
    dem = {}
    if clean:
        for i in ids:
            dem[i] = demo(i)
    for i in ids:
        m = json.load(open("%s/seeded/%s/meta.json" % (VERIF, i)))
        p = sh("git -C %s apply %s/seeded/%s/patch.diff" % (W, VERIF, i))
        if p.returncode:
            print(i, "PATCH DOES NOT APPLY", p.stdout); continue
        res = [i, m["property"]]
        try:
            r = rebuild()
            if r.returncode:
                print(i, "BUILD FAILS", r.stdout[-2000:]); continue
            if clean:
                res.append("demo clean=%d" % dem[i][0])
                if dem[i][0]: res.append(dem[i][1])
            d = demo(i)
            res.append("demo patched=%d" % d[0])
            if d[0] == 0: res.append(d[1])
            if check:
                t = time.time()
                pids = m["property"] if "--checks" not in os.environ else ""
                c = sh("python3 %s/checks/%s.py" % (VERIF, m["property"]), cwd=VERIF, env={**os.environ, "CLAZY_REPO": W, "CLAZY_VBUILD": VB, "VERIF_SEED": "1", "VERIF_NOEVIDENCE": "1"})
                first = [l for l in c.stdout.splitlines() if "VIOLATION" in l or "key=" in l][:2]
                res.append("check=%d (%.0fs) %s" % (c.returncode, time.time() - t, " ".join(first)[:300] if c.returncode == 1 else c.stdout[-600:]))
            if tests:
                sh("find %s/tests -type f \\( -name '*.out' -o -name '*.result' -o -name '*.fixed' -o -name '*.yaml' -o -name '*.pch' -o -name '*.o' \\) -delete" % W)
                sh("rm -f %s/_build/j.xml; ctest --test-dir %s/_build -j8 --timeout 600 --output-junit %s/_build/j.xml --test-output-size-passed 100000000 --test-output-size-failed 100000000; python3 /opt/vp/collect.py /tmp/seedtests.json %s/_build/j.xml" % (W, W, W, W), env={**ENV, "PYTHONDONTWRITEBYTECODE": "1"})
                ok = set(json.load(open("/tmp/seedtests.json"))["passed"])
                bad = [t for t in stable if t not in ok]
                res.append("tests broken=%d %s" % (len(bad), bad[:4]))
        finally:
            sh("git -C %s checkout -q -- ." % W)
        print(" | ".join(map(str, res)), flush=True)


main()
