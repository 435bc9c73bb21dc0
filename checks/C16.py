#!/usr/bin/env python3
"""C16: every listing of the checks agrees with what runs.  Each listing, in the repository, in the tools and in an installed
tree, is asked for real, and the answers are validated against spec/Registry.tla for the registry the metadata names."""
import json, os, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import clz, common, corpus, replay, triggers, visit
import yaml

REPO = clz.REPO
LEVEL = {"level0": 0, "level1": 1, "level2": 2, "manual": 3, "manuallevel": 3}
FIXP = re.compile(r"fix-[A-Za-z0-9_-]+")


def entries(lines, head, item):
    """[[name, level, fixits]] of a listing: head gives a level, item a name and the rest of its line"""
    lv, out = None, []
    for l in lines:
        h = head.search(l)
        if h:
            lv = LEVEL[h.group(1).lower().replace("manual level", "manual").replace(" ", "")]
        elif lv is not None:
            m = item.match(l)
            if m:
                out.append([m.group(1), lv, sorted(set(FIXP.findall(m.group(2)))) if m.lastindex > 1 else []])
    return out


def from_json(text):
    return [[c["name"], 3 if c["level"] in (-1, 3) else c["level"], sorted("fix-" + f["name"] for f in c.get("fixits", []))] for c in json.loads(text)["checks"]]


def read(*p):
    return open(os.path.join(*p), encoding="utf-8").read()


def views(ctx, d, inst):
    """(row, what was asked) of every listing that needs no program"""
    rows = []

    def add(view, got, asked, **kw):
        rows.append((dict(view=view, got=got, **kw), asked))
    src = os.path.join(d, "empty.cpp")
    open(src, "w").write("int a;\n")
    r = clz.standalone(src, ["--supported-checks-json"])
    add("json", from_json(r.out[r.out.index("{"):r.out.rindex("}") + 1]), "clazy-standalone --supported-checks-json")
    add("json", from_json(read(inst, "share/doc/clazy/checks.json")), "the installed checks.json")
    r = clz.plugin(src, ["help"])
    add("help", entries((r.err + r.out).splitlines(), re.compile(r"Checks from (level\d|manual)", re.I), re.compile(r"\s+- ([a-z0-9-]+)(.*)$")), "plugin help")
    for what, text in (("README.md", read(REPO, "README.md")), ("the installed README.md", read(inst, "share/doc/clazy/README.md"))):
        body = text[text.index("# List of checks"):text.index("# Selecting which checks")]
        add("readme", entries(body.splitlines(), re.compile(r"^- Checks from (Level ?\d|Manual Level)", re.I),
                              re.compile(r"^  - \[([a-z0-9-]+)\]\(docs/checks/README-\1\.md\)(.*)$")), what)
        lv = re.findall(r"To enable all checks from level(\d) use:\n`([^`]*)`", text)
        add("readmelevels", [[n.replace("clazy-", "", 1), int(l)] for l, ns in lv for n in ns.split(",")], what + ", the lists for clang-tidy")
    p = clz._run([clz.TIDY, "-load", clz.TIDYSO, "-checks=-*,clazy-*", "--config={}", "--list-checks"])
    add("tidy", re.findall(r"^\s+clazy-(\S+)$", p.out, re.M), "clang-tidy --list-checks")
    dd = os.path.join(REPO, "docs/checks")
    docs = sorted(f[7:-3] for f in os.listdir(dd) if f.startswith("README-") and f.endswith(".md"))
    add("docs", docs, "docs/checks")
    add("docs", [re.match(r"#*\s*(.*?)\s*#*\n", read(dd, "README-%s.md" % n)).group(1) for n in docs], "titles in docs/checks")
    got = []
    for l in sorted(os.listdir(os.path.join(inst, "share/doc/clazy"))):
        q = os.path.join(inst, "share/doc/clazy", l)
        if os.path.isdir(q):
            got += [[f[7:-3], LEVEL[l]] for f in os.listdir(q)]
    add("installed", got, "the installed pages")
    env = {**clz.BASE_ENV, "PATH": os.path.join(inst, "bin") + ":" + clz.BASE_ENV["PATH"]}
    clazy = os.path.join(inst, "bin/clazy")
    p = clz._run([clazy, "--list"], env)
    add("levels", [e[:2] for e in entries(p.out.splitlines(), re.compile(r"^(?:Checks \w+ )?(level\d|manual)\b", re.I), re.compile(r"^ +([a-z0-9-]+)$"))], "clazy --list")

    def explain(n):
        p = clz._run([clazy, "--explain", n], env)
        return [[a, LEVEL[b]] for a, b in re.findall(r"^== Explanation for checker (\S+) \((\w+)\) ==$", p.out, re.M)], p
    for n, (got, p) in zip(docs, clz.pmap(explain, docs)):
        # other names that contain this one are shown as well
        add("explain", [g for g in got if g[0] == n], "clazy --explain " + n, what=n)
    return rows


def body(ctx):
    rng, t = ctx.rng, ctx.thorough
    meta = clz.registry()
    reg = [dict(name=n, level=l, fixits=sorted("fix-" + f for f in fx)) for n, (l, fx) in sorted(meta.items())]
    names, fixes = [r["name"] for r in reg], [f for r in reg for f in r["fixits"]]
    with clz.Scratch() as d:
        rp = os.path.join(d, "registry.json")
        json.dump(reg, open(rp, "w"))
        import tlc
        ctx.model(tlc.run("MCRegistry", "SPECIFICATION Spec\nINVARIANTS InvSameSet InvNested InvListed InvRuns InvManual InvFix InvDefault\n", timeout=600), "MCRegistry")
        ctx.exhaustive = True
        inst = os.path.join(d, "inst")
        p = subprocess.run(["cmake", "--install", clz.BUILD, "--prefix", inst], capture_output=True, text=True, env=clz.BASE_ENV)
        if p.returncode:
            raise RuntimeError("install: " + p.stdout[-500:] + p.stderr[-500:])
        rows = views(ctx, d, inst)
        bodyless = [n for n in names if not read(REPO, "docs/checks/README-%s.md" % n).partition("\n")[2].strip()]
        # requests
        words = ["level0", "level1", "level2"]

        def request():
            k = rng.choice([0, 1, 1, 2, 2, 3, 5])
            ws = []
            for _ in range(k):
                x = rng.random()
                ws.append(rng.choice(words) if x < .35 else rng.choice(names) if x < .65 else rng.choice(fixes) if x < .75 else "no-" + rng.choice(names))
            if ws and all(w.startswith("no-") for w in ws):
                ws.append(rng.choice(words))
            return list(dict.fromkeys(ws))
        src = os.path.join(d, "empty.cpp")
        reqs = [["level0"], ["level1"], ["level2"], []] + [[n] for n in (names if t else rng.sample(names, 16))] + [[f] for f in (fixes if t else rng.sample(fixes, 6))] + [request() for _ in range(150 if t else 45)]

        def listed(ws):
            r = clz.standalone(src, (["-checks=" + ",".join(ws)] if ws else []) + ["-list-checks"])
            return re.findall(r"^    (\S+)$", r.out + r.err, re.M)
        for ws, got in zip(reqs, clz.pmap(listed, reqs)):
            rows.append((dict(view="list", words=ws, got=got), "clazy-standalone -list-checks " + ",".join(ws)))
        # what runs
        sn = corpus.all_snippets()
        progs = []
        for qt in (6, 58):
            sub = [(c, tx, "plain") for c, tx in sn]
            progs.append(visit.Program(d, "all%d" % qt, sub, qt))
        present = {}
        fails = []

        def ran(j):
            p, ws, front = j
            if front == "plugin":
                r = clz.plugin(p.main, [",".join(ws)] if ws else [], flags=p.flags, cwd=p.where)
            elif front == "env":
                r = clz.plugin(p.main, flags=p.flags, cwd=p.where, env={"CLAZY_CHECKS": ",".join(ws)} if ws else {})
            elif front == "tidy":
                r = clz.tidy(p.main, ws, flags=p.flags, cwd=p.where, opts=["-system-headers"])
                return sorted({c for g in visit.tidy_diags(r.out) for c in [g[3]] if c}), r
            else:
                r = clz.standalone(p.main, ["-checks=" + ",".join(ws)] if ws else [], flags=p.flags, cwd=p.where)
            return sorted({g.check for g in r.diags if g.check}), r
        for p in progs:
            got, r = ran((p, names, "plugin"))
            if r.rc:
                raise RuntimeError("the corpus does not compile: " + r.err[-900:])
            present[p.name] = got
        ctx.extra["checks_that_report"] = len(set(present["all6"]) | set(present["all58"]))
        jobs = [(p, ws, fe) for p in progs for fe in ("plugin", "standalone", "env") for ws in (["level0"], ["level1"], ["level2"], [])]
        jobs += [(rng.choice(progs), request(), rng.choice(["plugin", "standalone", "env"])) for _ in range(200 if t else 30)]
        tj = [(p, [n], "tidy") for p in progs[:1] for n in (names if t else rng.sample(names, 10))] + [(p, names, "tidy") for p in progs]
        for (p, ws, fe), (got, r) in zip(jobs + tj, clz.pmap(ran, jobs + tj)):
            rows.append((dict(view="runs", words=ws, got=got, present=present[p.name]), "%s runs %s on %s" % (fe, ",".join(ws)[:160], p.name)))
        # which checks propose fix-its
        own = set()

        def fixers(kt):
            k, (c, tx) = kt
            out = set()
            for qt in (6, 58):
                p = visit.Program(d, "f%d_%d" % (qt, k), [("", tx, "plain")], qt)
                y = p.main + ".clazy.yaml"
                got, r = visit.run(p, "plugin", names, export="y")
                own.update(g.check for g in r.diags if g.check == c)
                if os.path.exists(y):
                    for x in yaml.safe_load(open(y))["Diagnostics"]:
                        if x["DiagnosticMessage"]["Replacements"]:
                            out.add(x["DiagnosticName"].replace("clazy-", "", 1))
            return out
        rows.append((dict(view="fixes", got=sorted(set().union(*clz.pmap(fixers, list(enumerate(sn))))), present=names), "checks with replacements in exported fixes"))
        rows.append((dict(view="owns", got=sorted(own), present=names), "checks that report on code written for them"))
        env = dict(REGISTRY=rp)
        for k in replay.validate(ctx, d, "TraceRegistry", [x[0] for x in rows], env=env, limit=12):
            row, what = rows[k]
            ctx.violation(what, "not what checks.json names: %s" % diff(row, reg), dict(row=row, registry=reg))
        for n in bodyless:
            ctx.violation("docs/checks/README-%s.md" % n, "says nothing about the check", n)
        good = next(x[0] for x in rows if x[0]["view"] == "help")
        replay.must_reject(ctx, d, "TraceRegistry", {**good, "got": good["got"][:-1]}, env=env)
        replay.must_reject(ctx, d, "TraceRegistry", {**good, "got": good["got"] + good["got"][:1]}, env=env)
        good = next(x[0] for x in rows if x[0]["view"] == "runs" and x[0]["got"])
        replay.must_reject(ctx, d, "TraceRegistry", {**good, "got": good["got"][1:]}, env=env)
        ctx.sample(dict(asked=rows[-3][1], got=rows[-3][0]["got"][:10]))
        ctx.extra["rows"] = len(rows)


def diff(row, reg):
    meta = {r["name"]: r for r in reg}
    v = row["view"]
    if v in ("json", "help", "readme"):
        w = [[r["name"], r["level"], r["fixits"]] for r in reg if v != "help" or r["level"] < 3]
    elif v in ("levels", "installed", "readmelevels"):
        w = [[r["name"], r["level"]] for r in reg if v != "readmelevels" or r["level"] < 3]
    elif v in ("tidy", "docs", "owns"):
        w = sorted(meta)
    elif v == "fixes":
        w = [r["name"] for r in reg if r["fixits"]]
    else:
        return "answer %s" % str(row["got"])[:600]
    g = row["got"]
    return "missing %s; unexpected %s; repeated %s" % ([x for x in w if x not in g][:6], [x for x in g if x not in w][:6], [x for x in g if g.count(x) > 1][:4])


if __name__ == "__main__":
    common.main("C16", body)
