#!/usr/bin/env python3
"""C05: the line filter.  spec/LineFilter.tla's behaviours replayed into the standalone tool; random filters recorded and validated."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import clz, common, replay, tlc

CHECKS = "qgetenv,isempty-vs-count"
STMT = ['(void)qgetenv("A").isEmpty();', "if (vlist.count()) {}", 'FROM_MACRO']


class Src:
    """main file and two headers; cands: the warnings with their displayed file and line"""

    def __init__(self, d, tag, rng, lines, hash_line=False):
        self.d = os.path.join(d, tag)
        os.makedirs(os.path.join(self.d, "inc"))
        self.main = os.path.join(self.d, "main.cpp")
        self.cands = []
        self.checks = []
        inc = ["a.h", "inc/a.h", "inc/ba.h"]
        mac = '#define FROM_MACRO (void)qgetenv("B").isEmpty();\n#define WRAPPED(...) __VA_ARGS__\n'
        open(os.path.join(self.d, "pre.h"), "w").write("#include <qtstub.h>\nextern QList<int> vlist;\n" + mac)
        for f in inc:
            self.write(f, "h" + str(inc.index(f)), rng, lines, 1, os.path.join(self.d, f), hash_line)
        head = "".join('#include "%s"\n' % f for f in inc)
        self.write("main.cpp", "m", rng, lines, 4, self.main, False, head)
        assert len(self.cands) > 3

    def write(self, f, tag, rng, lines, first, shown, hash_line, head=""):
        t, n = head, first
        for k in range(lines):
            if hash_line and rng.random() < .1:
                n = rng.choice([1, 2, 5, 40])
                t += "#line %d\n" % n
            picks = rng.sample([0, 1] if hash_line else [0, 1, 2], rng.choice([0, 1, 1, 2]))  # equal presumed places of macro warnings are one warning
            t += "void f%s_%d() { %s }\n" % (tag, k, " ".join(STMT[p] for p in picks))
            for p in picks:
                self.cands.append(dict(file=shown, line=n))
                self.checks.append("isempty-vs-count" if p == 1 else "qgetenv")
            n += 1
        if not hash_line and rng.random() < .4:     # what's written in the argument of a macro has its own line
            ls = t[len(head):].split("\n")
            a = rng.randrange(lines)
            b = rng.randrange(a, lines)
            ls[a], ls[b] = "WRAPPED(" + ls[a] if a != b else "WRAPPED(" + ls[a] + ")", ls[b] + ")" if a != b else "WRAPPED(" + ls[b] + ")"
            t = head + "\n".join(ls)
        open(os.path.join(self.d, f), "w").write(t)

    def run(self, text):
        o = ["-checks=" + CHECKS] + ([] if text is None else ["-line-filter=" + text])
        return clz.standalone(self.main, o, flags=["-include", "pre.h"], cwd=self.d)

    def shown(self, r):
        if r.rc != 0:
            return "exit status %d" % r.rc
        left = {}
        for g in r.diags:
            if g.check:
                k = (g.file, g.line, g.check)
                left[k] = left.get(k, 0) + 1
        out = []
        for i, c in enumerate(self.cands):
            k = (c["file"], c["line"], self.checks[i])
            if left.get(k):
                left[k] -= 1
                out.append(i + 1)
        if any(left.values()):
            return "unexpected %s" % {k: v for k, v in left.items() if v}
        # warnings that look the same cannot be told apart: all of them or none
        return out


def text(entries, rng=None):
    js = []
    for e in entries:
        o = {"name": e["name"]}
        if e["ranges"] or (rng and rng.random() < .3):
            o["lines"] = e["ranges"]
        if rng and rng.random() < .3:
            o = dict(reversed(list(o.items())))
        js.append(o)
    return json.dumps(js, separators=(",", ":")) if not rng or rng.random() < .7 else json.dumps(js, indent=1)


def body(ctx):
    rng = ctx.rng
    with clz.Scratch() as d:
        src = Src(d, "x", rng, 5)
        R = lambda n, *rs: dict(name=n, ranges=[list(x) for x in rs])
        ents = [R("main.cpp"), R("main.cpp", (5, 6)), R("main.cpp", (4, 4), (7, 8)), R("a.h", (2, 3)), R("/a.h", (1, 2)), R("inc/a.h"), R("ba.h", (5, 1), (3, 3)),
                R("nothere.h"), R("main", (1, 99)), R(src.main, (6, 7)), R("", (3, 4))]
        par = os.path.join(d, "par.json")
        json.dump(dict(entries=ents, cands=src.cands, max=3 if ctx.thorough else 2), open(par, "w"))
        recs = replay.behaviours(ctx, "MCLineFilter", "InvExact InvSameLine InvUnion", dict(PARAMS=par))
        ctx.exhaustive = True

        def one(x):
            t = text(x["entries"])
            for _ in (0, 1):
                r = src.run(t)
                got = src.shown(r)
                if got == x["shown"]:
                    return None
            return (src, t, x["shown"], got, r)
        bad = [b for b in clz.pmap(one, recs) if b]
        ctx.validated += len(recs)
        ctx.sample(dict(kind="replayed", filter=text(recs[len(recs) // 2]["entries"]), shown=recs[len(recs) // 2]["shown"]))
        # malformed filters: said, and nothing hidden
        n = list(range(1, len(src.cands) + 1))
        for t in ("{", "nonsense", '{"name":"main.cpp"}', '"main.cpp"', "[", "5", "[}", "null"):
            r = src.run(t)
            ctx.validated += 1
            if src.shown(r) != n or "line-filter" not in r.err:
                bad.append((src, t, "everything shown and the filter refused with a message", src.shown(r), r))
        srcs = [Src(d, "r%d" % i, rng, rng.randint(3, 14), hash_line=i % 2 == 0) for i in range(30 if ctx.thorough else 10)]

        def rent(s):
            nm = rng.choice([c["file"] for c in s.cands])
            parts = nm.split("/")
            name = rng.choice([parts[-1], "/".join(parts[-2:]), nm, parts[-1][1:], "/" + parts[-1], "x" + parts[-1], parts[-1] + "x", parts[-1].upper(), parts[-2], parts[-1][:-1]])
            rs = []
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                a = rng.choice(s.cands)["line"] + rng.choice([-1, 0, 0, 0, 1])
                rs.append([max(a, 0), max(0, a + rng.choice([0, 0, 1, 2, 30, -1]))])
            return dict(name=name, ranges=rs)
        runs = []
        for s in srcs:
            runs.append((s, None, []))
            for _ in range(60 if ctx.thorough else 20):
                es = [rent(s) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
                runs.append((s, text(es, rng), es))

        def rec(j):
            s, t, es = j
            r = s.run(t)
            got = s.shown(r)
            if not isinstance(got, list):
                r = s.run(t)
                got = s.shown(r)
            return s, t, es, got, r
        rows, meta = [], []
        for s, t, es, got, r in clz.pmap(rec, runs):
            if not isinstance(got, list):
                bad.append((s, t, "a readable run", got, r))
                continue
            rows.append(dict(given="none" if t is None else "list", entries=es, cands=s.cands, shown=got))
            meta.append((s, t, r))
        for k in replay.validate(ctx, d, "TraceLineFilter", rows, invs="InvExact InvUnion"):
            bad.append((meta[k][0], meta[k][1], "what TraceLineFilter accepts", rows[k]["shown"], meta[k][2]))
        good = next(r for r in rows if len(r["shown"]) > 1)
        replay.must_reject(ctx, d, "TraceLineFilter", {**good, "shown": good["shown"][1:]})
        ctx.sample(dict(kind="recorded", filter=runs[1][1], shown=rows[1]["shown"]))
        for s, t, exp, got, r in bad:
            c = " ".join("%d=%s:%d" % (i + 1, os.path.relpath(x["file"], s.d), x["line"]) for i, x in enumerate(s.cands))
            t = None if t is None else " ".join(t.replace(d, "").split())
            ctx.violation(("%s:%s" % (t, c))[:300], "-line-filter=%s: of the warnings at %s, shown %s, must be %s" % (t, c, got, exp), dict(cmd=r.cmd, stderr=r.err[-2000:]))


if __name__ == "__main__":
    common.main("C05", body)
