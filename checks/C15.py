#!/usr/bin/env python3
"""C15: checks run together as they run alone, and runs repeat.  Selections from spec/Compose.tla and random ones over
random programs are run for real and their reports validated as interleavings of what each check gives alone."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import clz, common, progs, replay, session, tlc

HOWS, WEIGHTS = ["plain", "join", "ns", "macro", "margs", "user", "sys", "usermacro", "sysmacro"], [6, 5, 1, 2, 1, 3, 1, 1, 1]
FIXED = [("old-style-connect", "void f@(QTimer *t, QObject *o) { QObject::connect(t, SIGNAL(a(const QString &)), o, SLOT(b( int ))); }", "plain"),
         ("x", "class E@ : public QObject { Q_SIGNALS: int s() const; public: E@(); virtual bool event(QEvent *) { emit s(); return false; } };", "plain"),
         ("x", "struct P@ { virtual void a(); int *p; P@(const P@ &); }; void f@(P@ a, QList<int> l) { P@ b = a; (void)b.p; (void)l.size(); }", "join"),
         ("x", "bool f@(QString s, const QMap<QString, int> &m) { if (s.toLower().contains(QString(\"x\")) || m.values().count()) return 1; return m.keys().contains(s.left(1)); }", "macro")]
CHECKS = ["old-style-connect", "connect-not-normalized", "signal-with-return-value", "const-signal-or-slot", "copyable-polymorphic", "function-args-by-ref",
          "missing-qobject-macro", "qstring-allocations", "container-anti-pattern", "ctor-missing-parent-argument"]


class Observed:
    def __init__(self, p, front, opts):
        self.p, self.front, self.opts, self.alone, self.bad = p, front, opts, {}, []

    def run(self, sel):
        if self.front == "plugin":
            r = clz.plugin(self.p.main, [x for x in self.opts] + [",".join(sel)], flags=self.p.flags, cwd=self.p.d)
        else:
            r = clz.standalone(self.p.main, ["-checks=" + ",".join(sel)] + ["-" + x for x in self.opts], flags=self.p.flags, cwd=self.p.d)
        if r.rc not in ((0, 1) if self.p.broken else (0,)):
            return "exit status %d: %s" % (r.rc, r.err[-700:]), r
        return [[g.check, progs.ident(g, fx)] for g, fx in session.with_fixes(r.err) if g.check], r


def body(ctx):
    rng, t = ctx.rng, ctx.thorough
    reg = sorted(clz.registry())
    ctx.assumptions.append("the stub Qt headers declare what the checks look for")
    with clz.Scratch() as d:
        obs = []
        fx = progs.Program(d, "fixed", FIXED)
        for front in ("plugin", "standalone"):
            obs.append(Observed(fx, front, []))
        n = 45 if t else 9
        for i in range(n):
            opts = [o for o in ("qt4compat", "ignore-included-files") if rng.random() < .15]
            p = progs.random_program(rng, d, "r%d" % i, rng.choice([4, 10, 25, 60]), HOWS, WEIGHTS, broken=rng.random() < .12)
            obs.append(Observed(p, rng.choice(["plugin", "plugin", "standalone"]), [o for o in opts]))
        jobs = [(o, c) for o in obs for c in reg]
        fails = []
        for (o, c), (got, r) in zip(jobs, clz.pmap(lambda j: j[0].run([j[1]]), jobs)):
            if isinstance(got, str):
                fails.append((o, [c], got, r))
                got = []
            elif any(g[0] != c for g in got):
                fails.append((o, [c], "%s ran alone and another reported: %s" % (c, got), r))
            o.alone[c] = [g[1] for g in got if g[0] == c]
        par = os.path.join(d, "par.json")
        top = {c: obs[0].alone[c] for c in CHECKS}
        assert all(top.values()), {c: v for c, v in top.items() if not v}
        json.dump(dict(checks=CHECKS[:8 if t else 6], alone=top, max=3), open(par, "w"))
        recs = replay.behaviours(ctx, "MCCompose", "InvNoGain InvUnion InvOnlySelected InvOrder", dict(PARAMS=par))
        seen, sels = set(), []
        for x in recs:
            if tuple(x["sel"]) not in seen:
                seen.add(tuple(x["sel"]))
                sels.append(x["sel"])
        ctx.exhaustive = True
        ctx.extra["selections_enumerated"] = len(sels)
        jobs = [(obs[k % 2], s) for k, s in enumerate(sels)]
        for o in obs:
            live = [c for c in reg if o.alone[c]]
            jobs += [(o, reg), (o, reg[::-1]), (o, sorted(set(reg) - {rng.choice(live or reg)}))]
            for _ in range(30 if t else 12):
                k = rng.choice([2, 2, 3, 4, 8, 20, 60])
                s = [rng.choice(live if live and rng.random() < .8 else reg) for _ in range(k)]
                jobs.append((o, s))

        def rec(j):
            o, s = j
            a, r = o.run(s)
            b, r2 = o.run(s)
            same = r.err == r2.err and r.out == r2.out
            return a, (b if same or a != b else b + [["-", "the text differs"]]), r
        tables, rows, meta = {}, [], []
        for k, o in enumerate(obs):
            tables["p%d" % k] = o.alone
        tp = os.path.join(d, "tables.json")
        json.dump(tables, open(tp, "w"))
        for (o, s), (a, b, r) in zip(jobs, clz.pmap(rec, jobs)):
            if isinstance(a, str) or isinstance(b, str):
                fails.append((o, s, a if isinstance(a, str) else b, r))
                continue
            rows.append(dict(prog="p%d" % obs.index(o), sel=s, got=a, again=b))
            meta.append((o, s, r))
        for k in replay.validate(ctx, d, "TraceCompose", rows, env=dict(TABLES=tp)):
            o, s, r = meta[k]
            import collections
            u = collections.Counter((c, x) for c in set(s) for x in o.alone[c])
            g = collections.Counter(map(tuple, rows[k]["got"]))
            fails.append((o, s, "together and not alone: %s; alone and not together: %s; second run the same: %s" % (list((g - u).elements())[:4], list((u - g).elements())[:4], rows[k]["again"] == rows[k]["got"]), r))
        good = next(r for r in rows if len(r["got"]) > 2)
        replay.must_reject(ctx, d, "TraceCompose", {**good, "got": good["got"][:-1], "again": good["got"][:-1]}, env=dict(TABLES=tp))
        replay.must_reject(ctx, d, "TraceCompose", {**good, "again": good["got"][::-1]}, env=dict(TABLES=tp))
        ctx.extra["diagnostics_alone"] = sum(len(v) for o in obs for v in o.alone.values())
        ctx.extra["checks_that_report"] = len({c for o in obs for c in o.alone if o.alone[c]})
        ctx.sample(dict(sel=good["sel"], got=good["got"][:5]))
        for o, s, what, r in fails:
            ctx.violation("%s %s %s" % (o.front, ",".join(s)[:200], os.path.basename(o.p.main)), what, dict(text=o.p.text, sel=s, opts=o.opts, cmd=r.cmd, err=r.err[-3000:]))


if __name__ == "__main__":
    common.main("C15", body)
