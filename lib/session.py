"""Runs over several translation units (spec/Session.tla): sources, drivers and observation for C07, C08 and C14."""
import json, os, queue, re, shutil
import yaml
import clz, replay, tlc
from build import VERIF

# check -> (stage, line)
KINDS = {
    "qt-keyword-emit": ("pp", "class E@ : public QObject { Q_OBJECT Q_SIGNALS: void s(); public: void g() { emit s(); } };"),
    "qgetenv": ("ast", 'void f@() { (void)qgetenv("A").isEmpty(); }'),
    "isempty-vs-count": ("ast", "bool f@(const QList<int> &l) { if (l.count()) return 1; return 0; }"),
    "qdatetime-utc": ("ast", "void f@() { (void)QDateTime::currentDateTime().toMSecsSinceEpoch(); }"),
    "qfileinfo-exists": ("ast", "bool f@(const QString &s) { return QFileInfo(s).exists(); }"),
    "old-style-connect": ("ast", "void f@(QTimer *t, QObject *o) { QObject::connect(t, SIGNAL(timeout()), o, SLOT(deleteLater())); }"),
    "raw-environment-function": ("ast", "void f@(char *s) { putenv(s); }"),
    "copyable-polymorphic": ("ast", "struct P@ { virtual void a(); };"),
    "returning-void-expression": ("ast", "void g@(); void f@() { return g@(); }"),
    "qcolor-from-literal": ("ast", 'void f@() { QColor c("#FF0000"); (void)c; }'),
    "function-args-by-ref": ("ast", "void f@(QList<int> l) { (void)l.size(); }"),
    "const-signal-or-slot": ("ast", "class C@ : public QObject { Q_OBJECT public Q_SLOTS: int s() const; };"),
    "signal-with-return-value": ("ast", "class G@ : public QObject { Q_OBJECT Q_SIGNALS: int s(); };"),
    "missing-qobject-macro": ("ast", "class M@ : public QObject { public: int x; };"),
    "qstring-arg": ("ast", "QString f@(const QString &a, const QString &b) { QString s; return s.arg(a).arg(b); }"),
    "use-chrono-in-qtimer": ("ast", "void f@(QTimer *t) { t->start(100); }"),
    "ctor-missing-parent-argument": ("ast", "class K@ : public QObject { Q_OBJECT public: K@(); };"),
}
BROKEN_OK = [k for k in KINDS if k != "qcolor-from-literal"]
FIX = re.compile(r'^fix-it:"(.*)":\{(\d+):(\d+)-(\d+):(\d+)\}:"(.*)"$')


def unescape(s):
    out, i = bytearray(), 0
    b = s.encode()
    while i < len(b):
        if b[i] == 92:
            n = b[i + 1:i + 2]
            if n in b'"\\':
                out += n; i += 2
            elif n == b"n":
                out += b"\n"; i += 2
            elif n == b"t":
                out += b"\t"; i += 2
            else:
                out.append(int(b[i + 1:i + 4], 8)); i += 4
        else:
            out.append(b[i]); i += 1
    return out.decode("utf-8", "replace")


class Pool:
    """The units of a history.  specs: dicts name, flags, state, kinds: [(check, silenced)], headers: [names]"""

    def __init__(self, d, headers, units):
        self.d = d
        os.makedirs(d)
        self.byplace, self.cands, self.tus = {}, [None], {}
        self.checks = set()
        self.files = {}
        hc = {}
        for name, kinds in headers.items():
            hc[name] = self.write(name, "#pragma once\n#include <qtstub.h>\n", kinds)
        for u in units:
            if u["state"] == "missing":
                cs = []
            else:
                head = '#include <qtstub.h>\nint first_%s() { int i = 0; return i; }\n' % u["name"] + "".join('#include "%s"\n' % h for h in u.get("headers", []))
                own = self.write(u["name"] + ".cpp", head, u["kinds"], "int broken_ = undeclared_;\n" if u["state"] == "broken" else "")
                cs = [c for h in u.get("headers", []) for c in hc[h]] + own
            # what preprocessing finds comes first
            cs = [c for c in cs if c["stage"] == "pp"] + [c for c in cs if c["stage"] != "pp"]
            self.tus[u["name"]] = dict(name=u["name"], flags=u["flags"], state=u["state"], cands=cs)
        self.pool = [self.tus[u["name"]] for u in units]
        self.copies = queue.Queue()
        for i in range(clz.JOBS):
            w = os.path.join(d, "w%d" % i)
            os.makedirs(w)
            db = []
            for f in self.files:
                shutil.copy(os.path.join(d, f), os.path.join(w, f))
            for u in units:
                f = os.path.join(w, u["name"] + ".cpp")
                db.append(dict(directory=w, file=f, arguments=["clang++", "-std=c++20", "-ferror-limit=0", "-fdiagnostics-parseable-fixits", "-Wno-macro-redefined", "-isystem", clz.STUBS] + u["flags"] + ["-c", f]))
            json.dump(db, open(os.path.join(w, "compile_commands.json"), "w"))
            self.copies.put(w)

    def write(self, name, head, kinds, tail=""):
        cs, t = [], head
        for check, silenced in kinds:
            n = len(self.cands)
            t += KINDS[check][1].replace("@", str(n)) + (" // clazy:exclude=" + check if silenced else "") + "\n"
            c = dict(id=n, stage=KINDS[check][0], silenced=silenced)
            self.cands.append((name, t.count("\n"), check))
            self.byplace[(name, t.count("\n"), check)] = n
            self.checks.add(check)
            cs.append(c)
        t += tail
        open(os.path.join(self.d, name), "w").write(t)
        self.files[name] = t
        return cs

    # ---- running and observing
    def session(self, front, names, onlyQt, export, how=0):
        """Runs a history and returns (observation or text of what cannot be read, commands and outputs)"""
        w = self.copies.get()
        try:
            return self._session(w, front, names, onlyQt, export, how)
        finally:
            for f in os.listdir(w):
                if f not in self.files and f != "compile_commands.json":
                    os.unlink(os.path.join(w, f))
            self.copies.put(w)

    CORPUS = False
    NEUTRAL = ["visit-implicit-code", "qt-developer"]

    def identify(self, g, fixes, front):
        return self.byplace.get((os.path.basename(g.file), g.line, g.check)) if g.sev == "warning" else None

    def _session(self, w, front, names, onlyQt, export, how):
        neutral = [o for k, o in enumerate(self.NEUTRAL) if how >> k & 1]     # options without influence on these units
        files = [os.path.join(w, n + ".cpp") for n in names]
        runs, written = [], []
        checks = ",".join(sorted(self.checks))
        if front == "plugin":
            for k, n in enumerate(names):
                u = self.tus[n]
                args = (["only-qt"] if onlyQt else []) + (["export-fixes"] if export and how % 2 == 0 else []) + neutral + [checks]
                r = clz.plugin(n + ".cpp" if how % 3 else files[k], args, flags=["-fdiagnostics-parseable-fixits", "-Wno-everything" if self.CORPUS else "-Wno-macro-redefined"] + u["flags"], cwd=w,
                               env={"CLAZY_EXPORT_FIXES": "1"} if export and how % 2 else {})
                runs.append(r)
                y = files[k] + ".clazy.yaml"
                if os.path.exists(y):
                    written.append((k + 1, open(y).read()))
                    os.unlink(y)
        elif front == "standalone":
            o = ["-p", w, "-checks=" + checks] + (["-only-qt"] if onlyQt else []) + ["-" + x for x in neutral]
            out = os.path.join(w, "out.yaml")
            if export:
                o.append("-export-fixes=" + out)
                if how % 4 == 1 and any(self.tus[n]["cands"] and self.tus[n]["state"] == "ok" for n in names) and not onlyQt:
                    open(out, "w").write("---\nstale\n" * 200)
            cmd = [clz.STANDALONE] + o + files
            runs.append(clz._run(cmd, cwd=w))
            if os.path.exists(out):
                t = open(out).read()
                if not t.startswith("---\nstale"):
                    written.append((0, t))
        else:
            cs = ",".join(["-*"] + ["clazy-" + c for c in sorted(self.checks)])
            cmd = [clz.TIDY, "-load", clz.TIDYSO, "-checks=" + cs, "-header-filter=.*", "-system-headers", "--config={}", "-p", w] + files
            runs.append(clz._run(cmd, cwd=w))
        extra = [f for f in os.listdir(w) if f not in self.files and f not in ("compile_commands.json", "out.yaml")]
        log = [dict(cmd=r.cmd, rc=r.rc, err=r.err[-1500:], out=r.out[-1500:]) for r in runs] + [dict(written=x) for x in written]
        if extra:
            return "files written that must not be: %s" % extra, log
        seen, shown = [], {}
        for r in runs:
            ds = with_fixes(r.err if front != "tidy" else unmerge(r.out))
            for g, fixes in adopt(ds) if self.CORPUS else ds:
                if not g.check:
                    continue
                i = self.identify(g, fixes, front)
                if i is None:
                    return "unexpected diagnostic %s" % (g,), log
                seen.append(i)
                shown.setdefault(i, []).append((g, self.norm(w, fixes)))
        outs = []
        for k, t in written:
            ids = self.read_yaml(w, t, shown)
            if isinstance(ids, str):
                return ids, log
            outs.append(dict(tu=k, ids=sorted(ids)))
        if front == "tidy":
            seen = sorted(set(seen))
        return dict(reported=sorted(seen), files=outs, failed=any(r.rc != 0 for r in runs)), log

    def offset(self, name, line, col):
        ls = self.files[name].split("\n")
        return sum(len(x) + 1 for x in ls[:line - 1]) + col - 1

    def norm(self, w, fixes):
        out = []
        for f, l1, c1, l2, c2, text in fixes:
            n = os.path.basename(f)
            a = self.offset(n, l1, c1)
            out.append((n, a, self.offset(n, l2, c2) - a, text))
        return sorted(out)

    def effect(self, fixes):
        """what replacements make of a file, apart from blanks: the compiler shows adjacent ones as one and lets a removal take a blank along"""
        out = {}
        for n, a, ln, text in sorted(fixes, key=lambda x: (x[0], -x[1], -x[2])):
            t = out.get(n, self.files[n])
            out[n] = t[:a] + text.encode().decode("latin-1") + t[a + ln:]
        return {n: "".join(t.split()) for n, t in out.items()}

    def read_yaml(self, w, t, shown):
        try:
            y = yaml.safe_load(t)
        except yaml.YAMLError as e:
            return "unreadable export: %s" % e
        ids = []
        for x in y.get("Diagnostics") or []:
            m = x["DiagnosticMessage"]
            n = os.path.basename(m["FilePath"])
            if n not in self.files or (os.path.isabs(m["FilePath"]) and os.path.dirname(m["FilePath"]) != w):
                return "exported diagnostic with file path %r" % m["FilePath"]
            line = self.files[n][:m["FileOffset"]].count("\n") + 1
            col = m["FileOffset"] - (self.files[n].rfind("\n", 0, m["FileOffset"]) + 1) + 1
            name = x["DiagnosticName"]
            if not name.startswith("clazy-"):
                return "exported diagnostic named %r" % name
            i = self.byplace.get((n, line, name[6:])) if not self.CORPUS else self.byplace.get((n, line, col, name[6:], m["Message"]))
            fx = sorted((os.path.basename(r["FilePath"]), r["Offset"], r["Length"], r["ReplacementText"]) for r in m.get("Replacements") or [])
            if i is None or i not in shown:
                return "exported and not reported: %s %s:%d" % (name, n, line)
            if x.get("Level", "Warning") != "Warning":
                return "exported with level %s" % x["Level"]
            if not any(g.msg == m["Message"] and g.col == col and (f == fx or self.CORPUS and self.effect(f) == self.effect(fx)) for g, f in shown[i]):
                return "exported %r, reported %r" % ((m["Message"], line, col, fx), [((g.msg, g.line, g.col), f) for g, f in shown[i]])
            ids.append(i)
        return ids


CONT = "Type declared here:"      # missing-typeinfo's second warning, without a tag and not in clang-tidy


def adopt(diags):
    """[(diagnostic, fixes)] in which a continuation has the check of the warning it continues"""
    last, out = "", []
    for g, fx in diags:
        if g.check:
            last = g.check
        elif g.msg == CONT:
            g = clz.Diag(g[:4] + (last, g.msg))
        out.append((g, fx))
    return out


def unmerge(out):
    """clang-tidy's output with one line for each check of a warning that it attributes to several"""
    r = []
    for l in out.split("\n"):
        m = re.match(r"^(.*) \[(clazy-[a-z0-9-]+(?:,clazy-[a-z0-9-]+)+)\]$", l)
        r += ["%s [%s]" % (m[1], c) for c in m[2].split(",")] if m else [l]
    return "\n".join(r)


class CorpusPool(Pool):
    """Units of snippets for every check, which define different things under the same names.  What a unit must give is
    what it gives when it's analysed alone by the plugin."""
    CORPUS, NEUTRAL = True, ["visit-implicit-code"]

    def __init__(self, d, rng, n, size, checks):
        import corpus
        self.d, self.checks, self.byplace, self.cands, self.tus, self.files = d, set(checks), {}, [None], {}, {}
        os.makedirs(d)
        snips = [t for c, t in corpus.all_snippets() + corpus.CLASHING if not t.startswith("#include")]
        units = []
        for i in range(n):
            name, t = "u%d" % i, corpus.triggers.PRELUDE
            for k in range(rng.randint(1, size)):
                x = rng.choice(corpus.CLASHING)[1] if rng.random() < .3 else rng.choice(snips)
                x = x.replace("@", ("Y%d" if not x.startswith("#") else "%d") % k)
                how = rng.random() if not x.startswith("#") else 1
                t += ("#define ID%d(...) __VA_ARGS__\nID%d(%s)\n" % (k, k, x) if how < .15 and "Q_OBJECT" not in x else "#define BODY%d %s\nBODY%d\n" % (k, x, k) if how < .3 else x + "\n")
            units.append(dict(name=name, flags=rng.choice([[], ["-DQT_CORE_LIB"]]), state="ok"))
            self.files[name + ".cpp"] = t.encode().decode("latin-1")      # offsets count bytes
            open(os.path.join(d, name + ".cpp"), "w").write(t)

        def alone(u):
            r = clz.plugin(u["name"] + ".cpp", [",".join(sorted(self.checks))], flags=["-Wno-everything"] + u["flags"], cwd=d)
            return r, [g for g, fx in adopt([(g, ()) for g in r.diags]) if g.check]
        for u, (r, gs) in zip(units, clz.pmap(alone, units)):
            if r.rc:
                raise RuntimeError("%s: %s" % (u, r.err[-1500:]))
            cs = []
            for g in gs:
                k = (u["name"] + ".cpp", g.line, g.col, g.check, g.msg)
                if k not in self.byplace:
                    self.byplace[k] = len(self.cands)
                    self.cands.append((k[0], k[1], k[3]))
                cs.append(dict(id=self.byplace[k], stage="ast", silenced=False))
            self.tus[u["name"]] = dict(name=u["name"], flags=u["flags"], state="ok", cands=cs)
        self.conts = {i for k, i in self.byplace.items() if k[4] == CONT}
        self.pool = [self.tus[u["name"]] for u in units]
        self.copies = queue.Queue()
        for i in range(clz.JOBS):
            w = os.path.join(d, "w%d" % i)
            os.makedirs(w)
            db = []
            for f in self.files:
                shutil.copy(os.path.join(d, f), os.path.join(w, f))
            for u in units:
                f = os.path.join(w, u["name"] + ".cpp")
                db.append(dict(directory=w, file=f, arguments=["clang++", "-std=c++20", "-fdiagnostics-parseable-fixits", "-Wno-everything", "-isystem", clz.STUBS] + u["flags"] + ["-c", f]))
            json.dump(db, open(os.path.join(w, "compile_commands.json"), "w"))
            self.copies.put(w)

    def identify(self, g, fixes, front):
        return self.byplace.get((os.path.basename(g.file), g.line, g.col, g.check, g.msg)) if g.sev == "warning" else None


def with_fixes(text):
    out = []
    for l in text.splitlines():
        m = FIX.match(l)
        if m and out:
            out[-1][1].append((unescape(m[1]), int(m[2]), int(m[3]), int(m[4]), int(m[5]), unescape(m[6])))
            continue
        g = clz.parse(l)
        if g:
            out.append((g[0], []))
    return out


INVS = "InvOnlyQt InvAlone InvExport InvSilenced InvExit"


def fixed_pool(d):
    """the pool of the exhaustive part: Qt and other units, broken, missing, sharing a header"""
    U = lambda name, kinds, flags=(), state="ok", headers=(): dict(name=name, kinds=[(k.strip("!"), k.endswith("!")) for k in kinds.split()], flags=list(flags), state=state, headers=list(headers))
    return Pool(d, {"shared.h": [("qgetenv", False), ("isempty-vs-count", True), ("qt-keyword-emit", False)]}, [
        U("qt", "qgetenv qt-keyword-emit old-style-connect isempty-vs-count!", ["-DQT_CORE_LIB"]),
        U("other", "qdatetime-utc qt-keyword-emit copyable-polymorphic", ["-DQT_GUI_LIB"]),
        U("broken", "qgetenv qt-keyword-emit", ["-DQT_CORE_LIB=1"], "broken"),
        U("missing", "", ["-DQT_CORE_LIB"], "missing"),
        U("shareone", "raw-environment-function", ["-UQT_CORE_LIB", "-DQT_CORE_LIB=2"], "ok", ["shared.h"]),
        U("sharetwo", "qt-keyword-emit! qcolor-from-literal", ["-DQT_CORE_LIB", "-UQT_CORE_LIB"], "ok", ["shared.h"]),
        U("quiet", "qgetenv!", ["-DQT_CORE_LIB"]),
    ])


def random_pool(rng, d, flags=True):
    hs = {}
    for h in ("ha.h", "hb.h"):
        hs[h] = [(rng.choice(BROKEN_OK), rng.random() < .2) for _ in range(rng.randint(0, 4))]
    us = []
    for i in range(7):
        st = rng.choice(["ok"] * 7 + ["broken", "broken", "missing"])
        fl = [rng.choice(["-DQT_CORE_LIB", "-DQT_CORE_LIB=1", "-UQT_CORE_LIB", "-DQT_CORE_LIB_X", "-DXQT_CORE_LIB", "-DQT_GUI_LIB", "-DQT_CORE_LIB="]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        ks = [(rng.choice(BROKEN_OK if st == "broken" else sorted(KINDS)), rng.random() < .2) for _ in range(rng.choice([0, 1, 2, 4, 7]))]
        us.append(dict(name="u%d" % i, flags=fl, state=st, kinds=ks, headers=[h for h in hs if rng.random() < .3]))
    return Pool(d, hs, us)


def check(ctx, modes, n, rand_modes, pools, per, sample=None):
    """replays MCSession's behaviours over modes, then records random histories"""
    rng = ctx.rng
    with clz.Scratch() as d:
        p = fixed_pool(os.path.join(d, "fixed"))
        par = os.path.join(d, "par.json")
        json.dump(dict(pool=p.pool, modes=modes, max=n), open(par, "w"))
        recs = replay.behaviours(ctx, "MCSession", INVS, dict(PARAMS=par))
        ctx.exhaustive = True
        if sample:
            recs = [r for r in recs if len(r["names"]) < n or rng.random() < sample]

        def one(j):
            k, x = j
            exp = dict(reported=x["reported"], files=x["files"], failed=x["failed"])
            if x["front"] == "tidy":
                exp["reported"] = sorted(set(exp["reported"]))
            for _ in (0, 1):
                got, log = p.session(x["front"], x["names"], x["onlyQt"], x["export"], k)
                if got == exp:
                    return None
            return p, x, exp, got, log
        bad = [b for b in clz.pmap(one, enumerate(recs)) if b]
        ctx.validated += len(recs)
        ctx.sample(dict(kind="replayed", **recs[len(recs) // 2]))
        rows, meta, jobs = [], [], []
        for i in range(pools):
            q = random_pool(rng, os.path.join(d, "r%d" % i)) if i % 3 else CorpusPool(os.path.join(d, "r%d" % i), rng, 7, 12, clz.registry())
            for k in range(per):
                m = rng.choice(rand_modes)
                ln = rng.choice([1, 2, 2, 3, 5, 8])
                names = [rng.choice(sorted(q.tus)) for _ in range(ln)]
                if m["front"] == "tidy":
                    names = sorted(set(names))
                    rng.shuffle(names)
                    used = set()
                    keep = []
                    for x in names:  # clang-tidy shows what a header gives once
                        ids = {c["id"] for c in q.tus[x]["cands"]}
                        if not ids & used:
                            keep.append(x)
                            used |= ids
                    names = keep
                jobs.append((q, m, names, k))

        def rec(j):
            q, m, names, k = j
            for _ in (0, 1):
                got, log = q.session(m["front"], names, m["onlyQt"], m["export"], k)
                if isinstance(got, dict):
                    break
            return j, got, log
        for j, got, log in clz.pmap(rec, jobs):
            q, m, names, k = j
            x = dict(names=names, **m)
            if not isinstance(got, dict):
                bad.append((q, x, "a readable run", got, log))
                continue
            tus = [q.tus[n_] for n_ in names]
            if q.CORPUS and m["front"] == "tidy":
                tus = [{**u, "cands": [c for c in u["cands"] if c["id"] not in q.conts]} for u in tus]
            rows.append(dict(inp=dict(tus=tus, **m), **got))
            meta.append((q, x, log))
        for k in replay.validate(ctx, d, "TraceSession", rows, invs=INVS):
            q, x, log = meta[k]
            bad.append((q, x, "what TraceSession accepts", {y: rows[k][y] for y in ("reported", "files", "failed")}, log))
        good = next(r for r in rows if len(r["reported"]) > 1)
        replay.must_reject(ctx, d, "TraceSession", {**good, "reported": good["reported"][1:]})
        if any(r["files"] for r in rows):
            good = next(r for r in rows if r["files"] and len(r["files"][0]["ids"]) > 1)
            replay.must_reject(ctx, d, "TraceSession", {**good, "files": [{**good["files"][0], "ids": good["files"][0]["ids"][1:]}] + good["files"][1:]})
        ctx.sample(dict(kind="recorded", names=meta[0][1], got={y: rows[0][y] for y in ("reported", "files", "failed")}))
        for q, x, exp, got, log in bad:
            us = "; ".join("%s(%s)[%s]: %s" % (n_, q.tus[n_]["state"], " ".join(q.tus[n_]["flags"]), " ".join("%d=%s%s" % (c["id"], q.cands[c["id"]][2], "!" if c["silenced"] else "") for c in q.tus[n_]["cands"])) for n_ in sorted(set(x["names"])))
            key = "%s%s%s units %s where %s" % (x["front"], " only-qt" if x["onlyQt"] else "", " export" if x["export"] else "", ",".join(x["names"]), us)
            ctx.violation(key[:500], "%s: got %s, must be %s" % (key[:300], got, exp), log)
