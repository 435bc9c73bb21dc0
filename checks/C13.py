#!/usr/bin/env python3
"""C13: normalisation.  Every text of a few tokens and every type of bounded nesting, in every spacing, stands in C++
where clazy looks for it (and where it does not); the reports are compared with spec/Normalize.tla, and the specification
with Qt's own library.  Longer random texts are recorded and validated as traces."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import clz, common, normalize, replay, tlc

PT = [[], ["*"], ["*const"], ["*", "*"], ["*const", "*"]]
BASES = [["A"], ["int"], ["unsigned"], ["unsigned", " ", "int"], ["unsigned", " ", "long"], ["unsigned", " ", "long", " ", "long"], ["unsigned", " ", "char"], ["long", " ", "int"],
         ["struct", " ", "A"], ["enum", " ", "B"], ["N", ":", ":", "A"]]
W = ["const", "unsigned", "int", "long", "A", "struct", "void"]
S = [" ", "<", ">", "*", "&", ",", ":", "(", ")"]


def texts(ctx, d):
    """(kind, text, specified report) of everything enumerated"""
    t, out, jobs = ctx.thorough, [], []
    V = ["none", "pre", "post"]
    for name, p in [
            ("flat", dict(cv=V, cv1=["none"], base=BASES, ptr=PT, ptr1=[[]], ref=["", "&", "&&"], ref1=[""], deep=False)),
            ("nested", dict(cv=V, cv1=V, base=BASES if t else [["A"], ["unsigned"], ["struct", " ", "A"]], ptr=PT if t else PT[:3], ptr1=[[], ["*"], ["*const"]], ref=["", "&"], ref1=["", "&"], deep=False)),
            ("deep", dict(cv=V, cv1=V, base=[["A"], ["unsigned", " ", "long"]] if t else [["A"]], ptr=PT[:3] if t else PT[:2], ptr1=[[], ["*"]], ref=["", "&"] if t else [""], ref1=["", "&"] if t else [""], deep=True))]:
        jobs.append((None, "MCNormTypes", "InvMeaning InvConstPlace", p, name))
    for kind, b, a, n, w in [("sig", ["1f", "("], [")"], 4, W), ("sig", ["2f", "(", "V", "<"], [">", ")"], 3, W), ("type", [], [], 3, W + ["class", "short"]), ("sig", ["0f"], [], 3, W[:4])]:
        n += t and b[:1] != ["1f"]
        sy = S if kind == "sig" else S + ["\t"]
        if n == 4 and not t:
            w, sy = ["const", "unsigned", "long", "A"], S[:6]
        jobs.append((kind, "MCNormalize", "InvWords", dict(kind=kind, before=b, after=a, words=w, symbols=sy, min=0, max=n), " ".join(b)))

    def one(n):
        kind, mod, invs, p, name = jobs[n]
        par = os.path.join(d, "par%d.json" % n)
        json.dump(p, open(par, "w"))
        return [((kind,) if kind else ()) + tuple(x) for x in replay.behaviours(ctx, mod, invs, dict(PARAMS=par), name="%s(%s)" % (mod, name))]
    for x in clz.pmap(one, range(len(jobs)), 4):
        out += x
    return [(k, x, y) for k, x, y in {(k, x): (k, x, y) for k, x, y in out}.values()]


def body(ctx):
    rng, t = ctx.rng, ctx.thorough
    ctx.assumptions.append("Qt's normalisation is that of the installed Qt 5 library")
    with clz.Scratch() as d:
        qt = normalize.Qt(d)
        enum = texts(ctx, d)
        ctx.exhaustive = True
        for (k, x, y), q in zip(enum, qt([(k, x) for k, x, y in enum])):
            c = k == "sig"
            if (y[0] if y else x[c:]) != q[c:]:
                raise tlc.ModelError("Qt and the specification disagree on %s: %s, %s" % (x, q, y))
        fails, jobs = [], []
        rng.shuffle(enum)
        for n in range(0, len(enum), 700):
            u, want = normalize.Unit(rng), {}
            for i, (k, x, y) in enumerate(enum[n:n + 700]):
                looked = u.add(i, k, x, None if rng.random() < .15 else 1)
                want[i] = (k, x, [y] if looked and y else [])
            jobs.append((u, "e%d" % n, want))
        rnd = []
        for n in range(60 if t else 8):
            u, rows = normalize.Unit(rng), {}
            for i in range(250):
                k, x = normalize.random_text(rng)
                rows[i] = dict(kind=k, toks=normalize.lex(x), by="clazy", looked=u.add(i, k, x))
            jobs.append((u, "r%d" % n, rows))
        rows, meta = [], []
        for (u, name, want), got in zip(jobs, clz.pmap(lambda j: j[0].run(d, j[1]), jobs)):
            if isinstance(got, str):
                fails.append((u, "", got))
                continue
            for i, w in want.items():
                g = got.get(i, [])
                if isinstance(w, tuple):
                    ctx.validated += 1
                    if g != w[2]:
                        fails.append((u, line(u, i), "%s: specified %s, reported %s" % (w[1], w[2], g)))
                else:
                    rows.append({**w, "got": g[0] if len(g) == 1 else g})
                    meta.append((u, i))
        for r, q in list(zip(rows, qt([(r["kind"], "".join(r["toks"])) for r in rows]))):
            rows.append({**r, "by": "qt", "got": [q]})
            meta.append(None)
        for k in replay.validate(ctx, d, "TraceNormalize", rows):
            if meta[k] is None:
                raise tlc.ModelError("Qt and the specification disagree on %s" % rows[k])
            u, i = meta[k]
            fails.append((u, line(u, i), "%s, looked at %s: reported %s" % ("".join(rows[k]["toks"]), rows[k]["looked"], rows[k]["got"])))
        good = next(r for r in rows if r["by"] == "clazy" and r["got"] and r["looked"])
        replay.must_reject(ctx, d, "TraceNormalize", {**good, "got": []})
        replay.must_reject(ctx, d, "TraceNormalize", {**good, "got": [good["got"][0] + "x", good["got"][1]]})
        replay.must_reject(ctx, d, "TraceNormalize", {**good, "looked": False})
        ctx.extra["texts_enumerated"], ctx.extra["texts_recorded"] = len(enum), len(rows)
        ctx.sample(dict(text="".join(good["toks"]), got=good["got"]))
        for k, x, y in enum[:3]:
            ctx.sample(dict(kind=k, text=x, report=y))
        for u, l, what in fails:
            ctx.violation("normalize %s" % what.split(": ")[0], "%s\n%s" % (what, l), dict(line=l, cmd=u.cmd, what=what, prologue=normalize.PRE))


def line(u, i):
    return next(u.lines[n - 1] for n, k in u.of.items() if k == i)


if __name__ == "__main__":
    common.main("C13", body)
