"""C09, C10, C11: behaviours of spec/Visit.tla replayed into, and recorded runs of random programs validated against it."""
import collections, json, os, re
import clz, corpus, replay, tlc, visit, yaml

FES = ("plugin", "standalone", "tidy")
# what clang-tidy's own NOLINT and clazy's comments do is the business of C02 and C03; here they only have to do the same everywhere
COMMENTS = ["// clazy:exclude=%s", "// clazy:exclude=all-of-it,%s", "// NOLINT", "// NOLINT(clazy-%s)", "/* clazy:exclude=%s */", "// nothing", "// NOLINT(bugprone-x)"]


def front_ends(opts, quiet, fes=FES):
    return [f for f in fes if f != "tidy" or not opts]


def run(ctx, pid, shapes, options, quiet=False, fixes=False, compare=False):
    rng, t = ctx.rng, ctx.thorough
    reg = sorted(clz.registry())
    ctx.assumptions += ["the stub Qt headers declare what the checks look for", "clang-tidy's own header and system header filters are open"]
    with clz.Scratch() as d:
        T = {qt: visit.Tables(d, reg, qt) for qt in (6, 58)}
        seen = {b["check"] for x in T.values() for v in x.base.values() for b in v}
        if len(seen) < 90:
            raise tlc.ModelError("only %d checks report anything in the corpus" % len(seen))
        ctx.extra["checks_that_report"] = len(seen)
        model(ctx, d, T[6], shapes, quiet)
        replay_all(ctx, d, T, shapes, options, quiet, reg, fixes)
        traces(ctx, d, T, shapes, options, quiet, reg, fixes, compare)
        if compare:
            same_checks(ctx, reg)


def model(ctx, d, T, shapes, quiet):
    """the implementation's shape against the specification, over small abstract units; routes and their order are free"""
    D = lambda c, l, col, m: dict(check=c, line=l, col=col, msg=m)
    bases = [[D("a", 0, 1, "x"), D("a", 0, 5, "y"), D("b", 0, 1, "z")], [D("b", 0, 1, "z"), D("b", 0, 1, "w")]]
    pool = []
    for n, (where, how, uses) in sorted(set(visit.SHAPES[s] for s in shapes) and {str(visit.SHAPES[s]): visit.SHAPES[s] for s in shapes}.items()):
        for k, b in enumerate(bases):
            for bl in ([], ["b"]) if how in ("body", "arg") else ([],):
                pool.append(dict(id="i%d" % len(pool), base=b, where=where, how=how, uses=min(uses, 2), blind=bl))
    par = os.path.join(d, "abstract.json")
    json.dump(dict(items=pool, can=["a"], n=2 if ctx.thorough or len(pool) < 10 else 1, routes="all",
                   orders=[["pp", "visit", "match"], ["pp", "match", "visit"]]), open(par, "w"))
    cfg = "SPECIFICATION Spec\nINVARIANTS InvSystemSilent InvQuiet InvIgnore InvNotMore InvOncePerUse InvDone\nPROPERTY StepAllowed\n"
    ctx.model(tlc.run("MCVisit", cfg, env=dict(PARAMS=par)), "MCVisit(abstract)")


def replay_all(ctx, d, T, shapes, options, quiet, reg, fixes):
    """every snippet in every shape with every option set: the expectation comes from TLC"""
    t6 = T[6]
    items = []
    for c, t in t6.snips:
        for s in shapes:
            if visit.fits(t, s):
                it = t6.item(t, s)
                items.append(dict(id="%s|%s" % (t6.ids[t], s), base=t6.base_of(t, it["how"]), where=it["where"], how=it["how"], uses=it["uses"], blind=t6.blind[s]))
    par = os.path.join(d, "concrete.json")
    json.dump(dict(items=items, can=t6.can, n=1, routes="visit", orders=[["pp", "visit", "match"]]), open(par, "w"))
    recs = replay.behaviours(ctx, "MCVisit", "InvSystemSilent InvQuiet InvIgnore InvNotMore InvOncePerUse InvDone", dict(PARAMS=par), name="MCVisit(corpus)")
    exp = {}
    for r in recs:
        exp[r["items"][0], r["ignore"], r["quiet"]] = r["got"]
    ctx.exhaustive = True
    ctx.extra["placements_enumerated"] = len(exp)
    text = {i: t for t, i in t6.ids.items()}
    ids = [x["id"] for x in items]
    chunks = collections.OrderedDict()
    for i in ids:
        chunks.setdefault(i.split("|")[1], []).append(i)
    jobs = []
    for s, l in chunks.items():
        for n in range(0, len(l), 35):
            its = [("", text[i.split("|")[0]], s) for i in l[n:n + 35]]
            for q in ((False, True) if quiet and s in ("plain", "user", "body", "bodyuser") else (False,)):
                p = visit.Program(d, "%s%s_%d" % ("q" if q else "", s, n), its, quiet=q)
                for o in options:
                    for fe in front_ends(o, q):
                        jobs.append((p, l[n:n + 35], o, fe))
    bad = {p.name: p.error() for p in {j[0].name: j[0] for j in jobs}.values()} if False else {}
    outs = clz.pmap(lambda j: visit.run(j[0], j[3], reg, j[2], export=j[0].main + "." + j[3] + "-".join(j[2]) + ".yaml" if fixes and j[3] == "standalone" else None), jobs)
    for (p, l, o, fe), (got, r) in zip(jobs, outs):
        if isinstance(got, str):
            ctx.violation("%s %s %s" % (fe, p.name, ",".join(o)), got, dict(cmd=r.cmd, text=p.text))
            continue
        by = collections.defaultdict(list)
        for g in got:
            by[g["item"]].append(g)
        for k, i in enumerate(l):
            ctx.validated += 1
            how = visit.SHAPES[p.items[k][2]][1]
            key = (lambda u, c, ln, col, m: (u, c)) if how == "body" else (lambda u, c, ln, col, m: (u, c, ln, col, m)) if how != "arg" else (lambda u, c, ln, col, m: (u, c, ln, col))
            want = collections.Counter(key(*x[1:]) for x in exp[i, "ignore-included-files" in o, p.quiet])
            have = collections.Counter(key(g["use"], g["d"]["check"], g["d"]["line"], g["d"]["col"], g["d"]["msg"]) for g in by[k + 1])
            wrongplace = [g for g in by[k + 1] if how == "body" and (g["d"]["line"] or g["d"]["col"])]
            if (have - want) or wrongplace or (how != "template" and want - have):
                ctx.violation("%s %s %s %s" % (fe, i.split("|")[1], ",".join(o), p.items[k][1]),
                              "not reported: %s; reported and not expected: %s; not at the use: %s" % (list(want - have)[:4], list(have - want)[:4], wrongplace[:2]),
                              dict(cmd=r.cmd, text=p.text, err=r.err[-3000:], out=r.out[-2000:]))
        if by[0]:
            ctx.violation("%s %s %s elsewhere" % (fe, p.name, ",".join(o)), "reported outside of all items: %s" % by[0][:3], dict(cmd=r.cmd, text=p.text))
        if fixes and fe == "standalone":
            fixes_ok(ctx, p, r, p.main + "." + fe + "-".join(o) + ".yaml")
    ctx.extra["replayed_runs"] = len(jobs)


def fixes_ok(ctx, p, r, path):
    """exported replacements never touch a macro's definition"""
    if not os.path.exists(path):
        return
    y = yaml.safe_load(open(path)) or {}
    for D in y.get("Diagnostics", []):
        for x in D["DiagnosticMessage"]["Replacements"]:
            b = open(x["FilePath"], "rb").read()
            ctx.count("exported_replacements")
            line = b.count(b"\n", 0, x["Offset"])
            if b.split(b"\n")[line].startswith(b"#define") or b"/sys" in x["FilePath"].encode()[len(p.where):]:
                ctx.violation("fix %s %s" % (D["DiagnosticName"], p.name), "a fix changes a macro definition or a system header: %s in %r" % (x, b.split(b"\n")[line][:200]), dict(cmd=r.cmd, text=p.text))


def traces(ctx, d, T, shapes, options, quiet, reg, fixes, compare):
    rng, t = ctx.rng, ctx.thorough
    progs = []
    for k in range(90 if t else 16):
        qt = rng.choice([6, 6, 58])
        n = rng.choice([3, 8, 20, 45])
        q = quiet and rng.random() < .1
        p = visit.Program(d, "r%d" % k, visit.random_items(rng, n, shapes, T[qt].snips), qt, quiet=q)
        progs.append(p)
    progs = [p for p, e in zip(progs, clz.pmap(lambda p: p.error(), progs)) if not e]
    if len(progs) < 8:
        raise tlc.ModelError("most random programs do not compile")
    jobs = [(p, fe, rng.choice(options)) for p in progs for fe in FES]
    jobs = [(p, fe, o if fe != "tidy" else []) for p, fe, o in jobs]
    outs = clz.pmap(lambda j: visit.run(j[0], j[1], reg, j[2]), jobs)
    for qt in (6, 58):
        tp = T[qt].write(os.path.join(d, "tables%d.json" % qt))
        rows, meta = [], []
        for (p, fe, o), (got, r) in zip(jobs, outs):
            if p.qt != qt:
                continue
            if isinstance(got, str):
                ctx.violation("%s %s" % (fe, p.name), got, dict(cmd=r.cmd, text=p.text))
                continue
            rows.append(T[qt].row(p, got, "ignore-included-files" in o))
            meta.append((p, fe, o, r))
        for k in replay.validate(ctx, d, "TraceVisit", rows, env=dict(TABLES=tp), invs="InvSystemSilent InvQuiet InvIgnore InvOncePerUse"):
            p, fe, o, r = meta[k]
            what, lost, more = visit.explain(rows[k], T[qt], p)
            ctx.violation("%s %s %s" % (fe, ",".join(o), (lost + more + ["?"])[0]), what, dict(cmd=r.cmd, text=p.text, err=r.err[-3000:]))
        good = next((r for r in rows if len(r["got"]) > 3 and r["items"][r["got"][0]["item"] - 1]["how"] != "template"), None)
        if good:
            replay.must_reject(ctx, d, "TraceVisit", {**good, "got": good["got"][1:]}, env=dict(TABLES=tp))
            replay.must_reject(ctx, d, "TraceVisit", {**good, "got": good["got"] + good["got"][:1]}, env=dict(TABLES=tp))
            ctx.sample(dict(items=[(i["id"], i["shape"]) for i in good["items"]][:6], got=good["got"][:4]))
    ctx.extra["random_programs"] = len(progs)
    if compare:
        compare_all(ctx, d, progs, reg, rng)


def compare_all(ctx, d, progs, reg, rng):
    """with suppression comments sprinkled over the files, and random selections: the same three reports"""
    jobs = []
    for p in progs:
        f = p.main
        lines = open(f).read().split("\n")
        for k, l in enumerate(lines):
            if l and not l.startswith("#") and not l.endswith("\\") and "//" not in l and rng.random() < .35 and l not in ("ID(", ")"):
                c = rng.choice(COMMENTS)
                if "%s" in c:
                    c = c % rng.choice([i[0] for i in p.items])
                lines[k] = l + " " + c
        open(f, "w").write("\n".join(lines))
        sel = reg if rng.random() < .5 else rng.sample(reg, rng.choice([1, 5, 40]))
        jobs.append((p, sel))

    def go(j):
        p, sel = j
        r = [clz.plugin(p.main, [",".join(sel)], flags=p.flags, cwd=p.where), clz.standalone(p.main, ["-checks=" + ",".join(sel)], flags=p.flags, cwd=p.where),
             clz.tidy(p.main, sel, flags=p.flags, cwd=p.where, opts=["-system-headers"])]
        a, b = ([(os.path.basename(g.file), g.line, g.col, g.check, g.msg) for g in x.diags if g.check] for x in r[:2])
        return [sorted(a), sorted(b), sorted(set(visit.tidy_diags(r[2].out)))], r
    for (p, sel), (got, r) in zip(jobs, clz.pmap(go, jobs)):
        ctx.validated += 1
        ctx.count("compared_programs_with_comments")
        ctx.count("compared_warnings", len(got[0]))
        for name, g, ref in (("standalone", got[1], got[0]), ("clang-tidy", got[2], sorted(set(got[0])))):
            if g != ref:
                a, b = collections.Counter(ref), collections.Counter(g)
                diff = [list((a - b).elements())[:3], list((b - a).elements())[:3]]
                ctx.violation("compare %s %s" % (name, (diff[0] + diff[1])[0][3:]), "only the plugin: %s; only %s: %s" % (diff[0], name, diff[1]), dict(cmd=r[0].cmd, cmd2=r[FES.index(name.replace("clang-", ""))].cmd, text=open(p.main).read()))


def same_checks(ctx, reg):
    """every check exists in every front end, and nothing else does"""
    r = clz._run([clz.STANDALONE, "-list-checks"]) if False else clz._run([clz.STANDALONE, "--supported-checks-json"])
    sa = sorted(c["name"] for c in json.loads(r.out)["checks"])
    r = clz._run([clz.TIDY, "-load", clz.TIDYSO, "-checks=-*,clazy-*", "--config={}", "-list-checks"])
    ti = sorted(re.findall(r"^\s+clazy-(\S+)$", r.out, re.M))
    pl = []
    with clz.Scratch() as d:
        src = os.path.join(d, "e.cpp")
        open(src, "w").write("int a;\n")
        for c, x in zip(reg, clz.pmap(lambda c: clz.plugin(src, [c]), reg)):
            if x.rc == 0 and not x.err.strip():
                pl.append(c)
    ctx.validated += 3 * len(reg)
    for n, l in (("standalone", sa), ("clang-tidy", ti), ("plugin", pl)):
        if l != reg:
            ctx.violation("checks of %s" % n, "missing %s, too many %s" % (sorted(set(reg) - set(l)), sorted(set(l) - set(reg))), dict())
