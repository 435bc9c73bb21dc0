"""Programs whose items are placed in every way spec/Visit.tla knows, and their runs by the three front ends."""
import collections, json, os, re
import clz, corpus, session
from corpus import triggers

MANUAL = "FixIt failed, requires manual intervention"      # in macros this depends on what the source text there looks like
FLAGS = ["-Wno-everything", "-fdiagnostics-parseable-fixits"]
# how an item can be placed: (where, how, uses)
SHAPES = {
    "plain": ("main", "direct", 1), "join": ("main", "direct", 1), "ns": ("main", "direct", 1), "local": ("main", "direct", 1),
    "user": ("user", "direct", 1), 
    "sys": ("system", "direct", 1), "sysdeep": ("system", "direct", 1), "userdeep": ("system", "direct", 1),   # included by a system header
    "syspragma": ("system", "direct", 1), "syscpp": ("system", "direct", 1),
    "tmpl": ("main", "template", 1), "tmpluser": ("user", "template", 1), "tfun": ("main", "template", 1), "tmplsys": ("system", "direct", 1),
    "hole": ("main", "direct", 1), "holeuser": ("user", "direct", 1),     # a file is included between the statements of a function
    "body": ("main", "body", 1), "bodyuser": ("main", "body", 1), "bodysys": ("main", "body", 1), "nested": ("main", "body", 1),
    "nesteduser": ("main", "body", 1), "body2": ("main", "body", 2), "bodyline": ("main", "body", 2), "body3": ("main", "body", 3), "bodyinuser": ("user", "body", 1),
    "bodyinsys": ("system", "body", 1), "bodyinarg": ("main", "body", 1), "pasted": ("main", "body", 1),
    "arg": ("main", "arg", 1), "argarg": ("main", "arg", 1), "argdup": ("main", "arg", 1), "argsys": ("main", "arg", 1), "arguser": ("user", "arg", 1), "argnl": ("main", "arg", 1),
}
# checks that go by the text of sections and marks, or by directives, and so don't see through macros
BLIND = ["connect-by-name", "connect-non-signal", "const-signal-or-slot", "fully-qualified-moc-types", "incorrect-emit", "modernize-list-initialization",
         "overloaded-signal", "overridden-signal", "qenums", "qproperty-type-mismatch", "qproperty-without-notify", "signal-with-return-value",
         "thread-with-slots", "unneeded-cast", "virtual-signal"]
ARG_SEES = ["qenums", "qproperty-without-notify"]     # these are found in arguments


HOLE = re.compile(r"\) (?:const )?\{ (?=[^ }])")


def fits(text, shape):
    where, how, uses = SHAPES[shape]
    if text.startswith("#"):
        return shape in ("plain", "user", "userdeep", "sys", "sysdeep", "syspragma", "syscpp")
    if shape in ("hole", "holeuser"):
        return bool(HOLE.search(text)) and "\n" not in text and "operator==" not in text     # more statements make it another function to compare-member-check
    ns = shape in ("ns", "body2", "bodyline", "body3", "argdup", "nested")
    if ns and ("qHash" in text or "Q_GLOBAL" in text):
        return False
    if shape == "bodyinarg" and "Q_OBJECT" in text:
        return False    # the class and its Q_OBJECT have one and the same place
    if shape == "pasted" and re.search(r'[\w"]@|@[\w"]|"[^"]*@', text):
        return False
    if shape in ("local", "tfun") and (not text.startswith(("class @ ", "struct @ ")) or "template" in text or "; }; " in text.split("}; ", 1)[-1] and False):
        return False
    if shape in ("local", "tfun") and ("static" in text or ": public QObject" in text and "Q_OBJECT" not in text or " @::" in text or "operator" in text or text.rstrip().endswith("}") or "Q_OBJECT" in text):
        return False
    if shape in ("tmpl", "tmpluser", "tmplsys") and (("Q_GLOBAL" in text) or "namespace" in text or " @::" in text or text.startswith("const char *@ =") or text.startswith("static ")):
        return False
    return True


class Program:
    def __init__(self, d, name, items, qt=6, quiet=False):
        """items: [(check, text, shape)]"""
        self.d, self.name, self.items, self.qt, self.quiet = d, name, items, qt, quiet
        self.where = os.path.join(d, name)
        sysd, cppd = os.path.join(self.where, "sys"), os.path.join(self.where, "sys2")
        mdir = os.path.join(self.where, "a.rcc", "qmlcache") if quiet else self.where
        for x in (sysd, cppd, mdir):
            os.makedirs(x, exist_ok=True)
        self.spans = []     # (file basename, line, col, end col or None, item, use, exact place)
        n = name
        F = {"main": n + ".cpp", "user": n + "_user.h", "userdeep": n + "_deep.h", "sys": n + "_sys.h", "sysdeep": n + "_sysdeep.h",
             "pragma": n + "_pragma.h", "syscpp": n + "_impl.cpp"}
        T = {k: triggers.PRELUDE for k in F}
        T["user"] = '#pragma once\n' + T["user"]
        T["pragma"] = "#pragma GCC system_header\n" + T["pragma"]
        T["userdeep"] = '#pragma once\n' + T["userdeep"]
        T["user"] += '#include <%s>\n' % F["sysdeep"]
        T["sys"] += '#include "%s"\n' % F["userdeep"]
        pre = '#define ID(...) __VA_ARGS__\n#define TWO(...) namespace zqd1 { __VA_ARGS__ } namespace zqd2 { __VA_ARGS__ }\n#define ID2(...) ID(__VA_ARGS__)\n'
        T["main"] += pre + '#include "%s"\n#include <%s>\n#include "%s"\n#include <%s>\n' % (F["user"], F["sys"], F["pragma"], F["syscpp"])
        defs = "".join("#define LATER%d %s\n" % (k, self.named(k)) for k, (c, t, s) in enumerate(items) if s in ("bodyinsys",))
        if defs:
            T["main"] = T["main"].replace(pre, pre + defs)

        def put(f, prefix, text, suffix, k, use=1, exact=False, join=False, shift=0):
            if join and T[f].endswith("\n") and not T[f].split("\n")[-2].startswith("#"):
                T[f] = T[f][:-1] + " "
            line = T[f].count("\n") + 1
            col = len((T[f][T[f].rfind("\n") + 1:] + prefix).encode()) + 1
            T[f] += prefix + text + suffix + "\n"
            nl = text.count("\n")
            self.spans.append((F[f], line, col, None if nl else col + len(text.encode()), line + nl, k, use, exact, shift))

        for k, (c, t, s) in enumerate(items):
            t = self.named(k)
            if s in ("plain", "join"):
                put("main", "", t, "", k, join=s == "join" and not t.startswith("#"))
            elif s == "ns":
                put("main", "namespace zq%d { " % k, t, " }", k)
            elif s == "local":
                put("main", "void zqf%d() { " % k, t, " }", k)
            elif s in ("user", "userdeep", "sys", "sysdeep", "syscpp"):
                put(s, "", t, "", k)
            elif s == "syspragma":
                put("pragma", "", t, "", k)
            elif s in ("hole", "holeuser"):
                f, m = "main" if s == "hole" else "user", HOLE.search(t)
                put(f, "", t[:m.end()], "", k)
                T[f] += '#include "%s_vars%d.inc"\n' % (n, k)
                open(os.path.join(self.where, "%s_vars%d.inc" % (n, k)), "w").write("struct zqinc%d; int zqinc%dv;\n" % (k, k))
                put(f, "", t[m.end():], "", k, shift=len(t[:m.end()].encode()))
            elif s in ("tmpl", "tmpluser", "tmplsys"):
                put({"tmpl": "main", "tmpluser": "user", "tmplsys": "sys"}[s], "template<class T> struct zqW%d { " % k, t, " }; template struct zqW%d<int>; template struct zqW%d<char>;" % (k, k), k)
            elif s == "tfun":
                put("main", "template<class T> void zqt%d() { " % k, t, " } template void zqt%d<int>(); template void zqt%d<char>();" % (k, k), k)
            elif s in ("body", "bodyuser", "bodysys"):
                f = {"body": "main", "bodyuser": "user", "bodysys": "sys"}[s]
                T[f] += "#define MAC%d %s\n" % (k, t)
                put("main", "", "MAC%d" % k, "", k, exact=True)
            elif s in ("nested", "nesteduser"):
                T["main" if s == "nested" else "user"] += "#define INN%d %s\n#define MID%d(x) INN%d\n" % (k, t, k, k)
                T["main"] += "#define MAC%d namespace zqo%d { MID%d(1) }\n" % (k, k, k) if s == "nested" else "#define MAC%d MID%d(1)\n" % (k, k)
                put("main", "", "MAC%d" % k, "", k, exact=True)
            elif s in ("body2", "body3", "bodyline"):
                T["main"] += "#define MAC%d %s\n" % (k, t)
                for u in range(1, SHAPES[s][2] + 1):
                    put("main", "namespace zqu%d { " % u, "MAC%d" % k, " }", k, u, exact=True, join=s == "bodyline" and u > 1)
            elif s == "pasted":
                T["main"] += "#define PASTE%d(zqn) %s\n" % (k, re.sub(r"(?<![\w#\"])X%d\b" % (k + 100), "X##zqn", t))
                put("main", "", "PASTE%d(%d)" % (k, k + 100), "", k, exact=True)
            elif s == "bodyinuser":
                T["user"] += "#define MAC%d %s\n" % (k, t)
                put("user", "", "MAC%d" % k, "", k, exact=True)
            elif s == "bodyinsys":
                put("sys", "", "LATER%d" % k, "", k, exact=True)
            elif s == "bodyinarg":
                T["main"] += "#define MAC%d %s\n" % (k, t)
                put("main", "ID(", "MAC%d" % k, ")", k, exact=True)
            elif s == "arg":
                put("main", "ID(", t, ")", k)
            elif s == "argarg":
                put("main", "ID2(", t, ")", k)
            elif s == "argdup":
                put("main", "TWO(", t, ")", k)
            elif s == "argnl":
                T["main"] += "ID(\n"
                put("main", "", t, "", k)
                T["main"] += ")\n"
            elif s == "argsys":
                T["sysdeep"] += "#define SYSID%d(...) __VA_ARGS__\n" % k
                put("main", "SYSID%d(" % k, t, ")", k)
            elif s == "arguser":
                T["user"] += "#define UID%d(...) __VA_ARGS__\n" % k
                put("user", "UID%d(" % k, t, ")", k)
            else:
                raise KeyError(s)
        P = {"main": mdir, "user": self.where, "userdeep": self.where, "sys": sysd, "sysdeep": sysd, "pragma": self.where, "syscpp": cppd}
        for k in F:
            open(os.path.join(P[k], F[k]), "w").write(T[k])
        self.text = T
        self.main = os.path.join(P["main"], F["main"])
        self.flags = FLAGS + ["-DQT_VERSION_MAJOR_STUB=%d" % qt, "-I", self.where, "-isystem", sysd, "-isystem", cppd]
        self.index = collections.defaultdict(list)
        for s in self.spans:
            for ln in range(s[1], s[4] + 1):
                self.index[s[0], ln].append(s)

    def error(self):
        r = clz._run([clz.CLANG, "-fsyntax-only", "-std=c++20", "-isystem", clz.STUBS] + self.flags + [self.main])
        return r.err if r.rc else ""

    def attribute(self, file, line, col, check, msg):
        """a reported place as [item (1-based, 0: none), use, {check, line, col, msg}] relative to the item"""
        best = None
        for s in self.index.get((file, line), ()):
            if s[3] is None or s[2] <= col < s[3] or (best is None and s[7] and False):
                best = s
        if best is None:
            return dict(item=0, use=0, d=dict(check=check, line=line, col=col, msg="%s: %s" % (file, msg)))
        _, l0, c0, c1, l1, k, use, exact, shift = best
        t = self.items[k][1]
        m = re.sub(r"zq\w+(\(\))?::", "", msg)
        m = re.sub(r"X%d(?!\d)" % (k + 100), "@", m) if not t.startswith("#") else m.replace("_%d" % (k + 100), "_@")
        return dict(item=k + 1, use=use, d=dict(check=check, line=line - l0, col=col - c0 + shift if c1 is not None else col, msg=m))

    def named(self, k):
        """names of one width, so that columns don't depend on k"""
        t = self.items[k][1]
        return t.replace("@", ("X%d" if not t.startswith("#") else "%d") % (k + 100))


def tidy_diags(out):
    """warnings of clang-tidy with every check they are attributed to"""
    r = []
    for l in out.split("\n"):
        m = re.match(r"^(\S+?):(\d+):(\d+): (?:warning|error): (.*) \[((?:clazy-[a-z0-9-]+,?)+)\]$", l)
        if m:
            for c in m[5].split(","):
                r.append((os.path.basename(m[1]), int(m[2]), int(m[3]), c[6:], m[4]))
    return r


def run(p, fe, checks, opts=(), export=None):
    """(list of attributed reports | error text, Run)"""
    ex = ["export-fixes"] if export and fe == "plugin" else ["-export-fixes=" + export] if export else []
    if fe == "plugin":
        r = clz.plugin(p.main, list(opts) + ex + [",".join(checks)], flags=p.flags, cwd=p.where)
        got = [(os.path.basename(g.file), g.line, g.col, g.check, g.msg) for g in r.diags if g.check]
    elif fe == "standalone":
        r = clz.standalone(p.main, ["-checks=" + ",".join(checks)] + ["-" + o for o in opts] + ex, flags=p.flags, cwd=p.where)
        got = [(os.path.basename(g.file), g.line, g.col, g.check, g.msg) for g in r.diags if g.check]
    else:
        r = clz.tidy(p.main, checks, flags=p.flags, cwd=p.where, opts=["-system-headers"])
        got = tidy_diags(r.out)
    if r.rc != 0:
        return "exit status %d: %s" % (r.rc, (r.err + r.out)[-700:]), r
    got = [p.attribute(*g) for g in got]
    return [g for g in got if not (g["item"] and SHAPES[p.items[g["item"] - 1][2]][1] in ("body", "arg") and g["d"]["msg"].startswith(MANUAL))], r


def base_tables(d, reg, qt=6, texts=None):
    """text -> what it gives plain in the main file, alone"""
    texts = texts or [t for c, t in corpus.all_snippets()]

    def one(kt):
        k, t = kt
        p = Program(d, "base%d_%d" % (qt, k), [("", t, "plain")], qt)
        got, r = run(p, "plugin", reg)
        if isinstance(got, str):
            raise RuntimeError("%s: %s" % (t, got))
        return [g["d"] for g in got], [g for g in got if g["item"] != 1]
    out = {}
    for t, (b, stray) in zip(texts, clz.pmap(one, enumerate(texts))):
        assert not stray, (t, stray)
        out[t] = b
    return out


class Tables:
    """The tables TraceVisit and MCVisit work with, for one Qt version"""

    def __init__(self, d, reg, qt=6):
        self.qt, self.reg = qt, reg
        self.snips = corpus.all_snippets()
        self.base = base_tables(d, reg, qt)
        self.ids = {t: "s%d" % k for k, (c, t) in enumerate(self.snips)}
        meta = {c["name"]: c for c in json.load(open(os.path.join(clz.REPO, "checks.json")))["checks"]}
        self.can = sorted(c for c in meta if meta[c].get("can_ignore_includes", False))
        self.blind = {s: blind(s) for s in SHAPES}

    def item(self, t, shape):
        where, how, uses = SHAPES[shape]
        return dict(id=self.ids[t] + ("m" if how in ("body", "arg") else ""), shape=shape, where=where, how=how, uses=uses)

    def base_of(self, t, how):
        b = self.base[t]
        return [x for x in b if not x["msg"].startswith(MANUAL)] if how in ("body", "arg") else b

    def write(self, path, can=None):
        base = {}
        for t, i in self.ids.items():
            base[i] = self.base_of(t, "direct")
            base[i + "m"] = self.base_of(t, "body")
        json.dump(dict(base=base, can=self.can, blind=self.blind), open(path, "w"))
        return path

    def row(self, p, got, ignore=False):
        return dict(items=[self.item(t, s) for c, t, s in p.items], ignore=ignore, quiet=p.quiet, got=got)


def random_items(rng, n, shapes, snips=None, weights=None):
    snips = snips or corpus.all_snippets()
    out = []
    while len(out) < n:
        c, t = rng.choice(snips)
        s = rng.choices(shapes, weights)[0]
        if fits(t, s):
            out.append((c, t, s))
    return out


def explain(row, tables, p):
    """for people: what the expectation and the observation differ in"""
    exp, got = collections.Counter(), collections.Counter()
    for k, (c, t, s) in enumerate(p.items):
        where, how, uses = SHAPES[s]
        for b in tables.base_of(t, how):
            if p.quiet or where == "system" or row["ignore"] and b["check"] in tables.can and where != "main" or how in ("body", "arg") and b["check"] in tables.blind[s]:
                continue
            for u in range(1, uses + 1):
                x = (k + 1, s, u, b["check"]) + ((0, 0, "*") if how == "body" else (b["line"], b["col"], b["msg"]))
                exp[x] = 1 if how in ("body", "arg") else exp[x] + 1
    for g in row["got"]:
        s = p.items[g["item"] - 1][2] if g["item"] else "nowhere"
        d = g["d"]
        body = s != "nowhere" and SHAPES[s][1] == "body"
        got[(g["item"], s, g["use"], d["check"], d["line"], d["col"], "*" if body else d["msg"])] += 1
    lost = [x for x in (exp - got) if SHAPES[x[1]][1] != "template"]
    more = list(got - exp)
    return "not reported: %s; reported and not expected: %s" % (lost[:4], more[:4]), lost, more


def blind(shape):
    return [c for c in BLIND if not (SHAPES[shape][1] == "arg" and c in ARG_SEES)]
