#!/usr/bin/env python3
"""C02: clazy: comments.  All files of up to three lines over an alphabet of comments (spec/Suppression.tla) are replayed
into the three front ends; longer random files are recorded from them and validated by spec/TraceSuppression.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import clz, common, tlc
from suppress import *


def body(ctx):
    rng = ctx.rng
    pool = sorted(SNIP)
    A, B, X = rng.sample(pool, 3)
    cl = lambda k, *l: C("clazy", k, l)
    alpha = [C(), cl("skip"), cl("all", A), cl("all", X, B), cl("cur", A), cl("cur", B), cl("cur", A, B), cl("cur", B, X, A),
             cl("next", A), cl("next", B), cl("next", A, B), cl("cur", X), cl("next", X), cl("all", X), cl("cur", A + "x"), cl("all", A[:-1])]
    with clz.Scratch() as d:
        recs = mc(ctx, d, alpha, 3, [A, B], "MCSuppression 3 lines x %d comments" % len(alpha))
        ctx.exhaustive = True
        fails = replay(ctx, d, recs, [A, B], ["plugin", "standalone", "tidy"], "m")
        if ctx.thorough:
            small = [alpha[i] for i in (0, 1, 2, 4, 6, 8, 10)]
            recs4 = mc(ctx, d, small, 5, [A, B], "MCSuppression 5 lines x 7 comments")
            fails += replay(ctx, d, recs4, [A, B], ["plugin", "standalone"], "n")

        def comment(r):
            k = r.choice(["all", "cur", "cur", "cur", "next", "next", "text"] + (["skip"] if r.random() < .15 else []))
            if k == "text":
                return C()
            if k == "skip":
                return cl("skip")
            names = [r.choice(pool + pool + ["foreach", "no-such-check", A[:-1], A + "s", "clazy-" + A]) for _ in range(r.choice([1, 1, 2, 3, 4]))]
            return cl(k, *names)
        files = [random_file(rng, comment, pool) for _ in range(6000 if ctx.thorough else 900)]
        for f in files:
            for l in f:
                l["comments"] = [c for c in l["comments"] if c["fam"] != "text"]
        fails += trace(ctx, d, files, pool, ["plugin", "standalone"], "t")
        binding(ctx, d, [x for x in files if any(l["warn"] for l in x)][:1], pool)
        main_file_cases(ctx, d, A, B, fails)
        ctx.sample(dict(kind="replayed", file=recs[len(recs) // 2]["file"], reported=sorted(recs[len(recs) // 2]["reported"])))
        ctx.sample(dict(kind="recorded", file=files[0]))
    report(ctx, fails)


def main_file_cases(ctx, d, A, B, fails):
    """Comments in the main file rather than a header, every kind, at start, middle and very end of the file; and a file's
    comments say nothing about another file."""
    rng = ctx.rng
    cl = lambda k, *l: C("clazy", k, l)
    jobs = []
    L = lambda *c: dict(comments=[*c], warn=[A, B])
    for c in (cl("skip"), cl("all", A), cl("all", B, A), cl("cur", A), cl("cur", B), cl("next", A), C()):
        for where in range(4):
            for ctext in ("line", "alone", "noeol"):
                f = [L() for _ in range(4)]
                f[where]["comments"] = [c] if c["fam"] != "text" else []
                if ctext == "alone":
                    f[where]["warn"] = []
                jobs.append((f, ctext == "noeol"))
    rows = []

    def one(ij):
        i, (f, noeol) = ij
        calls = {}
        t = concretise(f, "z%d" % i, rng, calls, plain=True)
        if noeol:
            t = t.rstrip("\n")
        other = concretise([L(), L()], "y%d" % i, rng, {}, plain=True)
        op = os.path.join(d, "other%d.h" % i)
        open(op, "w").write(other)
        # the directive file is the main file: everything it needs comes with -include
        p = os.path.join(d, "main%d.cpp" % i)
        open(p, "w").write(t)
        pre = os.path.join(d, "pre.h")
        fe = "plugin" if i % 3 else "standalone"
        flags = ["-include", pre, "-include", op]
        r = clz.plugin(p, [A + "," + B], flags=flags) if fe == "plugin" else clz.standalone(p, ["-checks=" + A + "," + B], flags=flags)
        got, oth = {}, 0
        for dg in r.diags:
            if dg.check and dg.file == p:
                got[(dg.line, dg.check)] = got.get((dg.line, dg.check), 0) + 1
            elif dg.check:
                oth += 1
        return (fe, f, got, r.cmd, p, calls, oth)
    open(os.path.join(d, "pre.h"), "w").write(MAINPRE)
    for x in clz.pmap(one, enumerate(jobs)):
        if x[6] != 4:
            fails.append((x[0], x[1], {(0, "warnings of another file"): 4}, {(0, "warnings of another file"): x[6]}, x[3], open(x[4]).read()))
        rows.append(x[:6])
    fails += check_trace(ctx, d, rows)


if __name__ == "__main__":
    common.main("C02", body)
