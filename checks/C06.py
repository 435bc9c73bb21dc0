#!/usr/bin/env python3
"""C06: severity and exit status.  spec/Severity.tla's behaviours replayed into the three front ends; random runs recorded and validated."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import clz, common, replay, tlc

# check -> a line that gives exactly one warning of it, by the phase in which it is found
LINES = {
    "qt-keyword-emit": "class E@ : public QObject { Q_OBJECT Q_SIGNALS: void s(); public: void g() { emit s(); } };",
    "missing-qobject-macro": "class M@ : public QObject { public: int x; };",
    "signal-with-return-value": "class G@ : public QObject { Q_OBJECT Q_SIGNALS: int s(); };",
    "copyable-polymorphic": "struct P@ { virtual void a(); };",
    "qgetenv": "void f@() { (void)qgetenv(\"A\").isEmpty(); }",
    "isempty-vs-count": "bool f@(const QList<int> &l) { if (l.count()) return 1; return 0; }",
    "returning-void-expression": "void g@(); void f@() { return g@(); }",
    "qcolor-from-literal": "void f@() { QColor c(\"#FF0000\"); (void)c; }",
    "qhash-with-char-pointer-key": "template<typename T> void f@(T t) { QHash<const char *, int> m; (void)m.size(); } template void f@<int>(int);",
    "raw-environment-function": "void f@(char *s) { putenv(s); }",
}


class Src:
    def __init__(self, d, tag, picks):
        """picks: (check, silenced)"""
        self.d, self.main = d, os.path.join(d, tag + ".cpp")
        self.cands = [dict(check=c, silenced=s) for c, s in picks]
        with open(self.main, "w") as f:
            f.write("#include <qtstub.h>\n")
            for i, (c, s) in enumerate(picks):
                f.write(LINES[c].replace("@", str(i)) + (" // clazy:exclude=" + c if s else "") + "\n")
        self.msgs = None

    def run(self, front, asErr, flags, noW, val="1"):
        env = {}
        if asErr:
            env["CLAZY_CHECKS_AS_ERRORS"] = ",".join(asErr)
        if noW:
            env["CLAZY_NO_WERROR"] = val
        cs = sorted({c["check"] for c in self.cands})
        if front == "plugin":
            return clz.plugin(self.main, [",".join(cs)], flags=flags, env=env, cwd=self.d)
        if front == "standalone":
            return clz.standalone(self.main, ["-checks=" + ",".join(cs)], flags=flags, env=env, cwd=self.d)
        return clz.tidy(self.main, cs, flags=flags, env=env, cwd=self.d)

    def observe(self, r):
        """[sev, invalid, rc] or a text saying what is wrong"""
        got = {}
        for g in r.diags:
            if g.sev not in ("warning", "error", "fatal error") or (not g.check and g.file == "<none>"):
                continue
            if not g.check or os.path.basename(g.file) != os.path.basename(self.main):
                return "unexpected diagnostic %s" % (g,)
            if (g.line, g.check) in got:
                return "twice: %s" % (g,)
            got[(g.line, g.check)] = (g.sev, g.msg)
        sev = []
        for i, c in enumerate(self.cands):
            s, m = got.pop((i + 2, c["check"]), ("none", None))
            sev.append(s)
            if m is not None and self.msgs is not None and self.msgs[i] not in (None, m):
                return "message changed: %r, was %r" % (m, self.msgs[i])
        if got:
            return "unexpected warning %s" % got
        return dict(sev=sev, invalid=[l[15:] for l in r.err.splitlines() if l.startswith("Invalid check: ")], rc=r.rc)

    def baseline(self):
        r = self.run("plugin", [], [], False)
        m = {(g.line, g.check): g.msg for g in r.diags}
        self.msgs = [m.get((i + 2, c["check"])) for i, c in enumerate(self.cands)]


def body(ctx):
    rng = ctx.rng
    known = sorted(clz.registry())
    with clz.Scratch() as d:
        src = Src(d, "a", [("qt-keyword-emit", False), ("missing-qobject-macro", False), ("qgetenv", False), ("isempty-vs-count", True), ("qgetenv", True), ("qcolor-from-literal", False)])
        src.baseline()
        par = os.path.join(d, "par.json")
        json.dump(dict(cands=src.cands, known=known, names=2, flagsWithPairs=2 if ctx.thorough else 1,
                       items=["qt-keyword-emit", "missing-qobject-macro", "qgetenv", "qcolor-from-literal", "isempty-vs-count", "bogus", "qgeten"] + (["clazy-qgetenv", "level0"] if ctx.thorough else [])), open(par, "w"))
        recs = replay.behaviours(ctx, "MCSeverity", "InvExact InvExit InvInvalid InvKeeps", dict(PARAMS=par))
        ctx.exhaustive = True
        jobs = [(src, f, r) for r in recs for f in ("plugin", "standalone", "tidy")]
        if not ctx.thorough:
            jobs = [j for j in jobs if len(j[2]["asErr"]) < 2 or rng.random() < .35]

        def one(j):
            s, f, x = j
            exp = dict(sev=x["sev"], invalid=x["invalid"], rc=x["rc"])
            for _ in (0, 1):
                r = s.run(f, x["asErr"], x["flags"], x["noWerr"])
                got = s.observe(r)
                if got == exp:
                    return None
            return (s, f, x, exp, got, r)
        bad = [b for b in clz.pmap(one, jobs) if b]
        ctx.validated += len(jobs)
        ctx.sample(dict(kind="replayed", front=jobs[-1][1], **jobs[-1][2]))
        srcs = []
        for i in range(60 if ctx.thorough else 20):
            picks = [(rng.choice(sorted(LINES)), rng.random() < .2) for _ in range(rng.randint(1, 9))]
            s = Src(d, "r%d" % i, picks)
            s.baseline()
            srcs.append(s)
        runs = []
        for s in srcs:
            for _ in range(30 if ctx.thorough else 12):
                here = [c["check"] for c in s.cands]
                names = [rng.choice(here + rng.sample(known, 2) + ["bogus", "Qgetenv", "fix-qgetenv", "qgetenv2"]) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))]
                if len(names) > 2:
                    names[rng.randrange(len(names) - 1)] = rng.choice(["", names[0]])
                fl = [rng.choice(["-Werror", "-Werror", "-Wno-error", "-w", "-Wall", "-Werror=format"]) for _ in range(rng.choice([0, 1, 2, 3]))]
                f = rng.choice(["plugin", "standalone", "tidy"])
                runs.append((s, f, names, fl, rng.random() < .3, rng.choice(["", "0", "1", "yes"])))

        def rec(j):
            s, f, a, fl, n, v = j
            for _ in (0, 1):
                r = s.run(f, a, fl, n, v)
                got = s.observe(r)
                if isinstance(got, dict):
                    break
            return j, got, r
        rows, meta = [], []
        for j, got, r in clz.pmap(rec, runs):
            s, f, a, fl, n, v = j
            x = dict(asErr=a, flags=fl, noWerr=n)
            if not isinstance(got, dict):
                bad.append((s, f, x, "a readable run", got, r))
                continue
            rows.append(dict(inp=dict(cands=s.cands, known=known, **x), **got))
            meta.append((s, f, x, r))
        for k in replay.validate(ctx, d, "TraceSeverity", rows, invs="InvExact InvExit InvInvalid InvKeeps"):
            s, f, x, r = meta[k]
            bad.append((s, f, x, "what TraceSeverity accepts", {y: rows[k][y] for y in ("sev", "invalid", "rc")}, r))
        good = next(r for r in rows if "error" in r["sev"])
        replay.must_reject(ctx, d, "TraceSeverity", {**good, "sev": ["warning" if x == "error" else x for x in good["sev"]]})
        replay.must_reject(ctx, d, "TraceSeverity", {**good, "rc": 0})
        ctx.sample(dict(kind="recorded", front=meta[0][1], **meta[0][2], got={y: rows[0][y] for y in ("sev", "invalid", "rc")}))
        for s, f, x, exp, got, r in bad:
            c = " ".join(c["check"] + ("(silenced)" if c["silenced"] else "") for c in s.cands)
            key = "%s as-errors=%s flags=%s no-werror=%s on %s" % (f, ",".join(x["asErr"]), " ".join(x["flags"]), x["noWerr"], c)
            ctx.violation(key[:400], "%s: got %s, must be %s" % (key, got, exp), dict(cmd=r.cmd, stderr=r.err[-2000:]))


if __name__ == "__main__":
    common.main("C06", body)
