#!/usr/bin/env python3
"""C18: the clazy command.  Every short command line in every environment of a few kinds is given to the script that the
tree builds, around programs that record how they were called; longer random ones are recorded and validated."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import clz, common, replay, tlc, wrapper

JNI = dict(off=[None, "", "level0", "level1,qgetenv", "jni-other"], on=["jni-signatures", "level0,jni-signatures", "jni-signatures,level2"], disabled=["no-jni-signatures", "level2,no-jni-signatures"])
OWN = ["--help", "--version", "--list", "--explain", "--qtdeveloper", "--visit-implicit-code", "--standalone"]
ARGS = ["a.cpp", "", "a b", "*", "$HOME", "-DX=\"a b\"", "-DY='`id`'", "-o", "-c", "--", "-", "a\nb", "\\", "a\\tb", "-Xclang", "-I/x y", "~", "é", "--helpme", "--qtdeveloper=1", "-n", "-e", ";", "&&", "#", "%s", "{a,b}", "?", "[a-z]*", "!", "clang++"]


def body(ctx):
    rng, t = ctx.rng, ctx.thorough
    ctx.assumptions.append("the script runs under the shell at /bin/sh; the Windows batch files are not run")
    with clz.Scratch() as d:
        E = lambda jni="off", ndk="", layout="installed", ld=(), status=0: dict(argv=[], jni=jni, ndk=ndk, layout=layout, ld=list(ld), status=status)
        par = os.path.join(d, "par.json")
        few = [E(), E(status=42, ld=["/x", "/y"]), E("on", "/ndk dir", "build", ["/x"], 1), E("on", "", "build"), E("disabled", "", "none", [], 7)]
        many = [E(j, n, l, x, s) for j in JNI for n in ("", "/ndk", "/n  dk") for l in ("installed", "build", "none") for x in ([], ["/x", "/y z"]) for s in (0, 3)]
        invs = "InvPassed InvStatus InvNoEmptySuccess InvLd"
        recs = []
        for words, m, envs in [(OWN + ARGS[:4 if not t else 10], 2, few), (["--qtdeveloper", "--visit-implicit-code", "--standalone", "--help", "a b"], 4 if t else 3, few[:1] if not t else few), (["--qtdeveloper", "", "--list"], 1, many)]:
            json.dump(dict(words=words, max=m, envs=envs), open(par, "w"))
            recs += replay.behaviours(ctx, "MCWrapper", invs, dict(PARAMS=par), name="MCWrapper(%d words)" % len(words), extra_cfg="")
        ctx.exhaustive = True
        P = {}
        for k, base in enumerate(["plain", "with  space"]):
            for l in ("installed", "build", "none"):
                P[k, l] = wrapper.Prefix(os.path.join(d, base, l), l)
        jobs = [(x["inp"], x["res"], n) for n, x in enumerate(recs)]
        for n in range(4000 if t else 400):
            j = rng.choice(list(JNI))
            argv = []
            while rng.random() < .4:
                argv.append(rng.choice(OWN[4:6]))
            if rng.random() < .1:
                argv.append(rng.choice(OWN))
            for _ in range(rng.choice([0, 1, 3, 8, 30])):
                argv.append(rng.choice(ARGS + OWN) if rng.random() < .8 else "".join(rng.choice("ab -'\"\\$`*?[]{}()|&;<>#~=%\n\t/.+:,é") for _ in range(rng.randint(1, 9))))
            # what test(1) makes of these is its own affair
            k = next((k for k, a in enumerate(argv) if a not in OWN[4:6]), None)
            if k is not None and argv[k] in ("(", "!"):
                argv[k] = "x"
            jobs.append((dict(argv=argv, jni=j, ndk=rng.choice(["", "/ndk", "/n dk", "/n*"]), layout=rng.choice(["installed", "build", "none"]), ld=rng.choice([[], ["/x"], ["/a b", "/x"]]), status=rng.choice([0, 1, 2, 127, 255])), None, len(recs) + n))

        def one(job):
            inp, want, n = job
            r = __import__("random").Random("%s/%d" % (ctx.seed, n))
            pf = P[r.random() < .4, inp["layout"]]
            stdin = r.choice(["", "input\n", "two\nlines"])
            p, calls, cmd, env = pf.run(inp, r.choice(JNI[inp["jni"]]), os.path.join(d, "rec%d" % n), how=r.choice(["CLANGXX", "PATH"]), shell=r.choice([None, None, "/bin/dash", "/bin/bash"]), cwd=r.choice(["/", d]), stdin=stdin)
            return pf.observed(inp, p, calls, stdin), cmd, env, p
        rows, meta, fails = [], [], []
        for (inp, want, n), (got, cmd, env, p) in zip(jobs, clz.pmap(one, jobs)):
            if isinstance(got, str):
                fails.append((inp, cmd, env, "%s (stderr %r)" % (got, p.stderr[-200:])))
            elif want is None:
                rows.append(dict(inp=inp, got=got))
                meta.append((inp, cmd, env))
            else:
                ctx.validated += 1
                if got != want:
                    fails.append((inp, cmd, env, "specified %s, observed %s (stderr %r)" % (want, got, p.stderr[-200:])))
        for k in replay.validate(ctx, d, "TraceWrapper", rows):
            fails.append(meta[k] + ("observed %s" % rows[k]["got"],))
        good = next(r for r in rows if r["got"]["did"] == "compile" and len(r["inp"]["argv"]) > 1)
        g = good["got"]
        for bad in ({**g, "argv": g["argv"][:-1]}, {**g, "status": 1 - min(g["status"], 1)}, {**g, "argv": g["argv"][::-1]}, {**g, "ld": g["ld"] + [""]}):
            replay.must_reject(ctx, d, "TraceWrapper", dict(inp=good["inp"], got=bad))
        ctx.extra["command_lines"] = len(recs)
        ctx.sample(good)
        for inp, cmd, env, what in fails:
            ctx.violation("wrapper %s" % json.dumps(inp), what, dict(cmd=cmd, env=env, inp=inp))


if __name__ == "__main__":
    common.main("C18", body)
