#!/usr/bin/env python3
"""C17: fix-its.  The units spec/FixIt.tla derives are written into translation units that use the real Qt 5 and Qt 6, clazy's
fix-its are exported and applied, and the result is compiled and analysed again; each unit's life is validated by the specification."""
import hashlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import clz, common, fixits, replay

# results that are known to be wrong: (check, what it is, the text the unit is known to become)
OPTIONS = ["qstring-allocations-no-msvc-compat", "qstring-arg-fillChar-overloads", "function-args-by-ref-warn-for-overridden-methods", "function-args-by-value-warn-for-overridden-methods"]
KNOWN = [("qgetenv", "isNull", lambda t: t.replace('qgetenv("X").isNull()', 'qEnvironmentVariableIsSet("X")')),
         ("isempty-vs-count", "count-of-key-and-value", lambda t: t.replace("count(1, 2)", "contains(1)"))]


def key(u, after):
    for c, what, f in KNOWN:
        w = f(u["text"])
        if u["check"] == c and w != u["text"] and after in (w, w.replace("ID(", "(")) or u["check"] == c and w != u["text"] and after.replace("(", "").replace(")", "") == w.replace("ID(", "").replace("(", "").replace(")", ""):
            return c + ":" + what
    return "%s:%s" % (u["check"], hashlib.sha1(u["text"].encode()).hexdigest()[:10])


def listed(ctx, u):
    """one that is listed as known is always applied"""
    return "%s:%s" % (u["check"], hashlib.sha1(u["text"].encode()).hexdigest()[:10]) in ctx.known or any(u["check"] == c and f(u["text"]) != u["text"] for c, what, f in KNOWN)


def lives(t, first, again, chosen, applied, odd):
    """the rows of one translation unit's units"""
    (got1, r1, err1), (got2, r2, err2) = first, again
    rows = []
    for k, u in enumerate(t.units):
        def p(got):
            return any(c == u["check"] and ps for c, m, ps in got.get(k, []))
        rows.append((dict(unit=u, silenced=k in t.silenced, proposed=p(got1), chosen=k in chosen, text=t.template(k, applied[k]), compiles=k not in err2, again=p(got2) and k not in err2),
                     dict(qt=t.qt, before=t.before[k], after=applied[k], odd=odd.get(k), errors=err2.get(k, [])[:3], reps=[x for x in got1.get(k, []) if x[0] == u["check"]], file=t.main)))
    return rows


def body(ctx):
    t, rng = ctx.thorough, ctx.rng
    F = sorted(c for c, v in clz.registry().items() if v[1])
    U = replay.behaviours(ctx, "MCFixIt", "InvText InvMust InvSilenced InvChanged InvGone InvRules", None)
    U.sort(key=lambda u: u["text"])
    ctx.exhaustive = True
    rules = {u["check"] for u in U if u["after"]}
    ctx.extra["units"] = len(U)
    ctx.extra["checks_without_rules"] = sorted(set(F) - rules)
    with clz.Scratch() as d:
        jobs = []
        for rnd in range(4 if t else 1):
            for qt in (5, 6):
                us = [u for u in U if qt in u["qt"] and not u["file"]]
                rng.shuffle(us)
                n = 4
                for i in range(n):
                    part = us[i::n]
                    jobs.append((fixits.Tu(d, "r%dq%d_%d" % (rnd, qt, i), part, qt, silenced=[k for k in range(len(part)) if "\n" not in part[k]["text"] and not listed(ctx, part[k]) and rng.random() < .06], options=OPTIONS if (i + qt + rnd) % 2 else []), "plugin" if not t or rnd % 2 == 0 else "standalone"))
                if rnd == 0:
                    for i, u in enumerate(x for x in U if x["file"]):
                        dd = os.path.join(d, "f%d_%d" % (qt, i))
                        os.mkdir(dd)
                        open(os.path.join(dd, "other.moc"), "w").close()
                        jobs.append((fixits.Tu(dd, fixits.Tu.num(0), [dict(u, text=u["text"].rstrip("\n"))], qt, prelude=""), "plugin"))
        first = clz.pmap(lambda j: j[0].run(F, j[1]), jobs)
        state = []
        for (tu, front), f in zip(jobs, first):
            if f[2]:
                bad = sorted(f[2])[0]
                raise common.tlc.ModelError("unit does not compile with Qt %d: %s\n%s" % (tu.qt, tu.lines[bad] if bad >= 0 else "", f[2][bad][:3]))
            if f[1].rc != 0 or "Stack dump" in f[1].err:
                ctx.violation("crash qt%d" % tu.qt, "the run ended with %d" % f[1].rc, dict(cmd=f[1].cmd, err=f[1].err[-3000:], text=tu.text))
            chosen = {k for k in range(len(tu.units)) if len(tu.units) == 1 or rng.random() < .92 or listed(ctx, tu.units[k])}
            new, odd = tu.applied(f[0], chosen)
            state.append((chosen, new, odd))
        for (tu, front), s in zip(jobs, state):
            tu.before, tu.lines = tu.lines, list(s[1])
            tu.write(tu.lines)
        def again(j):
            """the second run; units whose result does not compile are what they were for the others' sake"""
            tu, front = j
            errs = {}
            for _ in range(3):
                g = tu.run(F, front)
                errs.update({k: v for k, v in g[2].items() if k not in errs})
                back = [k for k in g[2] if k >= 0 and tu.lines[k] != tu.before[k]]
                if not back:
                    break
                for k in back:
                    tu.lines[k] = tu.before[k]
                tu.write(tu.lines)
            return g[0], g[1], errs
        second = clz.pmap(again, jobs)
        rows, meta = [], []
        for (tu, front), f, s, g in zip(jobs, first, state, second):
            if -1 in g[2]:
                ctx.violation("elsewhere qt%d" % tu.qt, "after the fix-its something outside of the units does not compile: %s" % g[2][-1][:3], dict(text=tu.text))
            for r, m in lives(tu, f, g, s[0], s[1], s[2]):
                u = r["unit"]
                if u["file"]:
                    r["unit"] = {**u, "after": [x.rstrip("\n") if x != "?" else x for x in u["after"]]}
                    r["text"] = r["text"].rstrip("\n")
                if m["odd"]:
                    ctx.violation(key(u, r["text"]), "%s, Qt %d: the fix-it of `%s` %s" % (u["check"], tu.qt, u["text"], m["odd"]), m)
                    continue
                k = key(u, r["text"])
                if k in ctx.known and r["proposed"] and r["chosen"]:
                    ctx.violation(k, "%s gives `%s`" % (u["text"], r["text"]))
                    continue
                rows.append(r)
                meta.append(m)
        ctx.extra.update(lives=len(rows), proposed=sum(r["proposed"] for r in rows), applied=sum(r["proposed"] and r["chosen"] for r in rows), silenced=sum(r["silenced"] for r in rows),
                         checks_that_proposed=sorted({r["unit"]["check"] for r in rows if r["proposed"]}))
        # units that were not silenced and proposed nothing need no specification beyond "must"; all rows go to TLC in slices
        W = 4
        parts = [list(range(i, len(rows), W)) for i in range(W)]

        def val(i):
            return [parts[i][x] for x in replay.validate(ctx, d, "TraceFixIt", [rows[x] for x in parts[i]], name="trace%d.ndjson" % i, limit=4)]
        for k in sorted(x for v in clz.pmap(val, range(W)) for x in v):
            r, m = rows[k], meta[k]
            u = r["unit"]
            if r["proposed"] and not u["after"]:
                what = "proposes to turn it into `%s`" % m["after"]
            elif r["silenced"] and r["proposed"]:
                what = "proposes a fix-it although its line excludes the check"
            elif not r["proposed"] and u["must"] and not r["silenced"]:
                what = "proposes no fix-it"
            elif not r["compiles"]:
                what = "gives `%s`, which does not compile: %s" % (m["after"], m["errors"])
            elif r["proposed"] and r["chosen"] and r["text"] not in u["after"] and "?" not in u["after"]:
                what = "gives `%s`" % m["after"]
            else:
                what = "proposes again after `%s`: %s" % (m["after"], r["again"])
            ctx.violation(key(u, r["text"]), "%s, Qt %d: `%s` %s" % (u["check"], m["qt"], u["text"], what), m)
        good = next(r for r in rows if r["proposed"] and r["chosen"] and r["unit"]["must"])
        for bad, what in (({**good, "text": good["text"] + " "}, "text"), ({**good, "compiles": False}, "result that does not compile"), ({**good, "again": True}, "fix-it that is proposed again"),
                          ({**good, "silenced": True}, "suppression"), ({**good, "proposed": False, "text": good["unit"]["text"]}, "missing fix-it"), ({**good, "chosen": False}, "choice")):
            replay.must_reject(ctx, d, "TraceFixIt", bad, what=what)
        ctx.sample(good)


if __name__ == "__main__":
    common.main("C17", body)
