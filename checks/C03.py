#!/usr/bin/env python3
"""C03: NOLINT comments, alone and together with clazy: comments.  See C02."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import clz, common, tlc
from suppress import *


def body(ctx):
    rng = ctx.rng
    pool = sorted(SNIP)
    A, B, X = rng.sample(pool, 3)
    no = lambda k, *l: C("nolint", k, l, bare=not l)
    a, b = "clazy-" + A, "clazy-" + B
    globA = "clazy-" + A[:3] + "*"
    alpha = [C(), no("line"), no("line", a), no("line", b, a), no("line", "bugprone-x"), no("line", "clazy-*"), no("next"), no("next", a), no("next", "x", b),
             no("begin"), no("end"), no("begin", a), no("end", a), no("begin", "bugprone-x"), no("end", "bugprone-x"), no("begin", globA, b), no("end", globA, b)]
    FES = ["plugin", "standalone"]
    with clz.Scratch() as d:
        recs = mc(ctx, d, alpha, 3, [A, B], "MCSuppression 3 lines x %d comments" % len(alpha))
        fails = replay(ctx, d, recs, [A, B], FES, "m")
        # ranges need more lines: begin/end kinds only, all nestings
        ral = [C(), no("begin"), no("end"), no("begin", a), no("end", a), no("begin", "bugprone-x")] + ([no("begin", b), no("end", b)] if ctx.thorough else [])
        recs2 = mc(ctx, d, ral, 5, [A, B], "MCSuppression 5 lines x %d range comments" % len(ral))
        rng.shuffle(recs2)
        fails += replay(ctx, d, recs2 if ctx.thorough else recs2[:3600], [A, B], FES[:1] if not ctx.thorough else FES, "r")
        ctx.exhaustive = True
        pats = lambda r: r.choice(["clazy-" + r.choice(pool)] * 4 + ["clazy-*", "*", "clazy-q*", "clazy-*-*", "*-" + r.choice(pool), r.choice(pool), "clazy-" + r.choice(pool) + "x",
                                   "clazy-" + r.choice(pool)[:-1], "xclazy-" + A, "bugprone-*", "clazy-q.*", "clazy-[a-z]*", "clazy*", "clazy-", "cert-err58-cpp", "clazy-*-key"])

        def comment(r):
            if r.random() < .2:
                return C("clazy", r.choice(["cur", "next", "all"] if r.random() < .3 else ["cur", "next"]), [r.choice(pool)])
            k = r.choice(["line", "line", "next", "next", "begin", "end"])
            if r.random() < .3:
                return no(k)
            c = no(k, *[pats(r) for _ in range(r.choice([1, 1, 2, 3]))])
            c["sep"] = r.choice([",", ", ", " ,", ",  "]) if k in ("line", "next") else ","
            return c

        def rfile():
            f = random_file(rng, comment, pool, 14)
            # give BEGINs a good chance of a matching END
            open_ = []
            for l in f:
                for i, c in enumerate(l["comments"]):
                    if c["kind"] == "begin":
                        open_.append(c)
                    elif c["kind"] == "end" and c["fam"] == "nolint" and open_ and rng.random() < .8:
                        o = open_.pop()
                        l["comments"][i] = {**o, "kind": "end"}
            return f
        files = [rfile() for _ in range(6000 if ctx.thorough else 900)]
        fails += trace(ctx, d, files, pool, FES, "t")
        binding(ctx, d, [x for x in files if any(l["warn"] for l in x)][:1], pool)
        ctx.sample(dict(kind="replayed", file=recs[len(recs) // 2]["file"], reported=sorted(recs[len(recs) // 2]["reported"])))
        ctx.sample(dict(kind="recorded", file=files[0]))
    report(ctx, fails)


if __name__ == "__main__":
    common.main("C03", body)
