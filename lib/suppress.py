"""Concretises files of Suppression.tla and runs them through the three front ends."""
import json, os, re
import clz, tlc, triggers

# (check, snippet): statements that give exactly one warning each
SNIP = {
    "qgetenv": "(void)qgetenv(\"A\").isEmpty();",
    "qdatetime-utc": "(void)QDateTime::currentDateTime().toMSecsSinceEpoch();",
    "qfileinfo-exists": "(void)QFileInfo(QString()).exists();",
    "raw-environment-function": "putenv(nullptr);",
    "qhash-with-char-pointer-key": "QHash<const char *, int> @v; (void)@v.size();",
    "qmap-with-pointer-key": "QMap<int *, int> @v; (void)@v.size();",
    "container-anti-pattern": "(void)vmap.values().size();",
    "detaching-temporary": "(void)vtemp().first();",
    "isempty-vs-count": "if (vlist.count()) {}",
    "old-style-connect": "QObject::connect(vqo, SIGNAL(destroyed()), vqo, SLOT(nonexist@v()));",     # gives a second warning: no automatic fix
}
WEIGHT = {"old-style-connect": 2}
MAINPRE = triggers.PRELUDE + "extern QMap<int, int> vmap; QList<int> vtemp(); extern const QList<int> vlist; extern QObject *vqo;\n"
NOISE = ["clazy: exclude=%s", "CLAZY:EXCLUDE=%s", "clazy:exclude %s", "clazy:excluded=%s", "clazy-exclude=%s", "clazy:exclude-nextline=%s",
         "exclude=%s", "clazy:exclude=clazy-%s", "clazy:exclude=%sx", "clazy:exclude=x%s", "clazy:excludeall=%s-x", "nolint(clazy-%s)",
         "clazy:ski p", "lazy:skip", "clazy:excludeall%s", "clazy:exclude-next-line %s", "NO LINT %s"]


def text_of(c, rng):
    if c["fam"] == "clazy":
        if c["kind"] == "skip":
            return "clazy:skip"
        k = {"all": "excludeall", "cur": "exclude", "next": "exclude-next-line"}[c["kind"]]
        return "clazy:%s=%s" % (k, ",".join(c["list"]))
    k = {"line": "NOLINT", "next": "NOLINTNEXTLINE", "begin": "NOLINTBEGIN", "end": "NOLINTEND"}[c["kind"]]
    if c["bare"]:
        return k
    return "%s(%s)" % (k, c.get("sep", ",").join(c["list"]))


def concretise(f, uid, rng, calls, plain=False, macro=False, nolint_lit=True):
    """Returns the file text; calls[line][check] = number of warnings placed there.  f: list of lines."""
    out = []
    for i, line in enumerate(f):
        stm = ""
        for k, chk in enumerate(line["warn"]):
            n = 1 if plain or macro else rng.choice([1, 1, 2])
            calls[(i + 1, chk)] = n * WEIGHT.get(chk, 1)
            for j in range(n):
                v = "v%s_%d_%d_%d" % (uid, i, k, j)
                stm += (SNIP[chk].replace("@v", v) if not macro else "TRIG_%s(%s)" % (chk.replace("-", "_"), v)) + " "
        lit = ""
        names = line["warn"] or ["qgetenv"]
        if not plain and rng.random() < .15:
            lit = "const char *s = \"// " + rng.choice(["clazy:skip", "clazy:exclude=" + names[0], "clazy:excludeall=" + names[-1]] + ["NOLINT", "/* NOLINT */"] * nolint_lit) + "\"; (void)s; "
        code = "void f%s_%d() { %s%s}" % (uid, i, lit, stm) if (stm or lit) else ""
        coms = [text_of(c, rng) for c in line["comments"]]
        if len(coms) == 2 and not plain and line["comments"][0]["fam"] != line["comments"][1]["fam"] and rng.random() < .4:
            coms = [coms[0] + " " + coms[1]]
        pre = post = ""
        if not plain and rng.random() < .2:
            coms.append((lambda t: t % names[0] if "%s" in t else t)(rng.choice(NOISE)))
        ordered = sum(c["kind"] in ("begin", "end") for c in line["comments"]) > 1    # their order matters
        for n, t in enumerate(coms):
            style = 0 if plain else rng.choice([0, 0, 0, 1, 2, 3, 4])
            if ordered and style in (2, 3):
                style = 5
            junk = ("", "") if plain else rng.choice([("", ""), ("", ""), ("see ", ""), ("", " because"), ("TODO ", " and more")])
            body = junk[0] + t + junk[1]
            last = n == len(coms) - 1
            if style == 0 and last:
                post += " // " + body
            elif style == 1 and last:
                post += "\t//" + body
            elif style == 2:
                pre += "/* " + body + " */ "
            elif style == 3 and code:
                code = code.replace("{", "{ /*" + body + " */", 1)
            elif style == 4 and last:
                post += " /// " + body
            else:
                post += " /* " + body + " */"
        out.append(pre + code + post)
    nl = "\n" if plain or rng.random() < .85 else "\r\n"
    end = nl if plain or rng.random() < .6 else ""
    if not plain and out and not any("old-style-connect" in line["warn"] for line in f) and rng.random() < .3:        # all of it is the argument of a macro
        out[0] = "WRAPPED(" + out[0]
        out.append(")")
    return nl.join(out) + end


def macros():
    return "#define WRAPPED(...) __VA_ARGS__\n" + "".join("#define TRIG_%s(v) %s\n" % (c.replace("-", "_"), s.replace("@v", "v")) for c, s in SNIP.items())


class Batch:
    """Many files of the model in one translation unit, as headers; the last one may be the main file itself."""

    def __init__(self, d, name, files, rng, plain=False, nolint_lit=True):
        self.d, self.name, self.files = d, name, files
        self.calls, self.names, self.offsets = [], [], []
        os.makedirs(os.path.join(d, name), exist_ok=True)
        main = MAINPRE + macros()
        for i, f in enumerate(files):
            calls = {}
            t = concretise(f, "%s_%d" % (name, i), rng, calls, plain=plain, macro=(not plain and rng.random() < .25), nolint_lit=nolint_lit)
            off = 0
            if not plain and rng.random() < .12:        # the comments' lines are those of the file, whatever #line says
                off = rng.choice([1, 2, 3, 7, 100, 5000])
                t = "#line %d\n" % off + t
            self.offsets.append(off)
            p = os.path.join(d, name, "c%05d.h" % i)
            with open(p, "w", newline="") as fh:
                fh.write(t)
            main += '#include "%s/c%05d.h"\n' % (name, i)
            self.calls.append(calls)
            self.names.append(p)
        self.main = os.path.join(d, name + ".cpp")
        with open(self.main, "w") as fh:
            fh.write(main)

    def run(self, fe, checks):
        if fe == "plugin":
            r = clz.plugin(self.main, [",".join(checks)], cwd=self.d)
        elif fe == "standalone":
            r = clz.standalone(self.main, ["-checks=" + ",".join(checks)], cwd=self.d)
        else:
            r = clz.tidy(self.main, checks, cwd=self.d)
        got = [dict() for _ in self.files]
        bad = None
        if r.rc != 0:
            bad = "exit status %d\n%s" % (r.rc, r.err[-1500:])
        for dg in r.diags:
            if dg.sev == "error":
                bad = "unexpected error %s" % (dg,)
            if not dg.check:
                continue
            m = re.search(r"c(\d{5})\.h$", dg.file)
            if not m:
                bad = "warning outside the case files: %s" % (dg,)
                continue
            i = int(m.group(1))
            off = self.offsets[i]
            k = (dg.line if not off else dg.line - 1 if fe == "tidy" else dg.line - off + 1, dg.check)   # clang-tidy prints physical lines
            g = got[i]
            g[k] = g.get(k, 0) + 1
        return got, bad, r


def compare(batch, i, got, reported):
    """reported: set of (line, check) the model says are shown."""
    exp = {k: n for k, n in batch.calls[i].items() if k in reported}
    return exp, got[i] == exp


INVS = "InvExact InvRanges InvNoCommentNoLoss InvOtherChecksIrrelevant InvSkip"


def C(fam="text", kind="text", list=(), bare=False):
    return dict(fam=fam, kind=kind, bare=bare, list=[*list])


def mc(ctx, d, alphabet, lines, warn, name):
    par = os.path.join(d, "par.json")
    json.dump(dict(alphabet=alphabet, lines=lines, warn=warn), open(par, "w"))
    r = tlc.run("MCSuppression", "SPECIFICATION Spec\nINVARIANTS %s Emit\n" % INVS, env=dict(PARAMS=par), timeout=800)
    ctx.model(r, name)
    recs = sorted(r.records, key=lambda x: json.dumps(x["file"], sort_keys=True))
    for x in recs:
        x["reported"] = {(a, b) for a, b in x["reported"]}
    return recs


def replay(ctx, d, recs, checks, fes, tag, chunk=400, plain_every=3):
    """Runs the model's files through the front ends and compares what is shown."""
    batches = []
    for n in range(0, len(recs), chunk):
        part = recs[n:n + chunk]
        plain = (n // chunk) % plain_every == 0
        batches.append((Batch(d, "%s%d" % (tag, n // chunk), [x["file"] for x in part], ctx.rng, plain=plain, nolint_lit="tidy" not in fes), part))
    jobs = [(b, part, fe) for b, part in batches for fe in fes]

    def one(j):
        b, part, fe = j
        got, bad, r = b.run(fe, checks)
        fails = []
        if bad:
            got2, bad2, r2 = b.run(fe, checks)
            if bad2:
                return [(fe, None, bad2, None, r2.cmd, None)]
            got = got2
        for i, x in enumerate(part):
            exp, ok = compare(b, i, got, x["reported"])
            if not ok:
                fails.append((fe, x["file"], exp, got[i], r.cmd, open(b.names[i], newline="").read()))
        if fails:
            got, bad, r = b.run(fe, checks)     # must repeat
            fails = [f for f in fails if any(f[1] is x["file"] and not compare(b, i, got, x["reported"])[1] for i, x in enumerate(part))]
        return fails
    out = []
    for x in clz.pmap(one, jobs):
        out += x
    ctx.validated += sum(len(p) for _, p, _ in jobs)
    return out


def report(ctx, fails):
    for fe, f, exp, got, cmd, text in fails:
        if f is None:
            ctx.violation("%s:run" % fe, "%s: %s" % (fe, exp), dict(cmd=cmd))
            continue
        k = lambda m: sorted("%d:%s x%d" % (a, b, n) for (a, b), n in m.items())
        ctx.violation("%s:%s" % (fe, json.dumps([[text_of(c, None) for c in l["comments"] if c["fam"] != "text"] for l in f]).replace(" ", "")),
                      "%s: file %r: shown %s, must be %s" % (fe, text, k(got), k(exp)), dict(cmd=cmd, file=text, model=f, expected=k(exp), observed=k(got)))


def random_file(rng, alphabet, checks, maxlines=12):
    f = []
    for _ in range(rng.randint(2, maxlines)):
        warn = sorted(rng.sample(checks, rng.choice([0, 1, 1, 2, min(3, len(checks))])))
        n = rng.choice([0, 0, 1, 1, 2])
        f.append(dict(comments=[alphabet(rng) for _ in range(n)], warn=warn))
    return f


def trace(ctx, d, files, checks, fes, tag, chunk=300):
    """Random files through the real tools; the recorded outcome must be a behaviour of TraceSuppression."""
    rows = []
    batches = [Batch(d, "%s%d" % (tag, n // chunk), files[n:n + chunk], ctx.rng, nolint_lit="tidy" not in fes) for n in range(0, len(files), chunk)]
    def one(j):
        b, fe = j
        got, bad, r = b.run(fe, checks)
        if bad:
            got, bad, r = b.run(fe, checks)
        return (b, fe, got, bad, r)
    fails = []
    for b, fe, got, bad, r in clz.pmap(one, [(b, fe) for b in batches for fe in fes]):
        if bad:
            fails.append((fe, None, bad, None, r.cmd, None))
            continue
        for i, f in enumerate(b.files):
            # all or none of the warnings a check has on a line
            for k, n in got[i].items():
                if b.calls[i].get(k) != n:
                    fails.append((fe, f, {k: b.calls[i].get(k, 0)}, {k: n}, r.cmd, open(b.names[i], newline="").read()))
            rows.append((fe, f, got[i], r.cmd, b.names[i], b.calls[i]))
    fails += check_trace(ctx, d, rows)
    return fails


def check_trace(ctx, d, rows, count=True):
    fails, start = [], 0
    p = os.path.join(d, "trace.ndjson")
    while start < len(rows) and len(fails) < 5:
        tlc.write_ndjson(p, [dict(file=[dict(comments=[dict(fam=c["fam"], kind=c["kind"], bare=c["bare"], list=c["list"]) for c in l["comments"]],
                                             warn=l["warn"]) for l in f], reported=[[a, b] for a, b in sorted(g)])
                             for fe, f, g, cmd, n, calls in rows[start:]])
        r = tlc.run("TraceSuppression", "SPECIFICATION TSpec\nINVARIANTS InvExact InvRanges\nCONSTRAINT Progress\nPOSTCONDITION Accepted\n",
                    env=dict(TRACE=p), workers=1, timeout=800)
        if count:
            ctx.model(r, "TraceSuppression")
        c = r.records[-1]["consumed"]
        if count:
            ctx.validated += c
        if c >= len(rows) - start:
            break
        fe, f, g, cmd, n, calls = rows[start + c]
        fails.append((fe, f, {k: v for k, v in calls.items()}, g, cmd, "(all warnings of the file are listed as expected; the trace specification rejects what was shown)\n" + (open(n, newline="").read() if n else "")))
        start += c + 1
    return fails


def binding(ctx, d, files, checks):
    """A corrupted record must be rejected."""
    b = Batch(d, "bind", files[:1], ctx.rng, plain=True)
    got, bad, r = b.run("plugin", checks)
    ok = check_trace(ctx, d, [("plugin", files[0], got[0], r.cmd, b.names[0], b.calls[0])], count=False)
    keys = sorted(set(b.calls[0]) ^ set(got[0])) or sorted(got[0])
    wrong = dict(got[0])
    k = keys[0]
    if k in wrong:
        wrong.pop(k)
    else:
        wrong[k] = 1
    rej = check_trace(ctx, d, [("plugin", files[0], wrong, r.cmd, b.names[0], b.calls[0])], count=False)
    if not rej:
        raise tlc.ModelError("the trace specification accepts a corrupted record")
    ctx.extra["corrupted_record_rejected"] = True
