#!/usr/bin/env python3
"""C04: header filter, ignored directories, system headers and the main file.  Behaviours of spec/Filter.tla replayed;
random layouts and patterns recorded from plugin and standalone tool and validated by spec/TraceFilter.tla."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import clz, common, replay, tlc

INVS = "InvExact InvSystem InvMain InvNoFilter InvSameFile InvIgnoreWins"
META = set("()^$|*+?.[]\\{}")
CHECK = "qgetenv"
BODY = '''#define CAT2_(a, b) a##b
#define CAT_(a, b) CAT2_(a, b)
void CAT_(f%(tag)s_, __COUNTER__)() { (void)qgetenv("A").isEmpty(); }
'''
# the warning comes from a macro: only the place of use counts
MBODY = '''#define CAT2_(a, b) a##b
#define CAT_(a, b) CAT2_(a, b)
%(use)s
'''


def pat(text):
    """Parses the mini language: ^ and $ at the ends, '.' any, 'c*' repetition, '|' alternatives, \\c literal."""
    if not text:
        return []
    out = []
    for alt in re.split(r"(?<!\\)\|", text):
        bol = alt.startswith("^")
        alt = alt[bol:]
        eol = alt.endswith("$") and not alt.endswith("\\$")
        alt = alt[:len(alt) - eol]
        items, i = [], 0
        while i < len(alt):
            any_ = alt[i] == "."
            if alt[i] == "\\":
                i += 1
            c = alt[i]
            i += 1
            star = i < len(alt) and alt[i] == "*"
            i += star
            items.append(dict(c="" if any_ else c, any=any_, star=star))
        out.append(dict(bol=bol, eol=eol, items=items))
    return out


def esc(s):
    return "".join("\\" + c if c in META else c for c in s)


class Layout:
    """A set of files on disk.  cands: (name, kind) per warning in the order of inclusion, as the tools name the files."""

    def __init__(self, d, tag, files, includes, main="main.cpp"):
        """files: path -> list of (use) kinds; includes: list of (how, name shown, kind)"""
        self.d = os.path.join(d, tag)
        os.makedirs(self.d)
        for p, text in files.items():
            q = os.path.join(self.d, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, "w").write(text)
        self.flags = [i for i in includes["flags"]]
        self.main = os.path.join(self.d, main)
        os.makedirs(os.path.dirname(self.main), exist_ok=True)
        open(self.main, "w").write("#include <qtstub.h>\n" + "".join("#include %s\n" % h for h in includes["list"]) +
                                   BODY % dict(tag="m") + ("void mm() { FROM_MACRO }\n" if includes.get("macro") else ""))
        self.cands = None

    def observe(self, fe, opts=None, env=None):
        opts, env = opts or {}, env or {}
        e = {}
        if env.get("hf"):
            e["CLAZY_HEADER_FILTER"] = env["hf"]
        if env.get("ign"):
            e["CLAZY_IGNORE_DIRS"] = env["ign"]
        if fe == "plugin":
            r = clz.plugin(self.main, [CHECK], flags=self.flags, env=e, cwd=self.d)
        else:
            o = ["-checks=" + CHECK]
            if opts.get("hf"):
                o.append("-header-filter=" + opts["hf"])
            if opts.get("ign"):
                o.append("-ignore-dirs=" + opts["ign"])
            r = clz.standalone(self.main, o, flags=self.flags, env=e, cwd=self.d)
        return r

    def shown(self, r):
        """indices of the candidates whose warning is there; None if the run is not readable"""
        if r.rc != 0:
            return None
        left = {}
        for g in r.diags:
            if g.check:
                left[(g.file, g.line)] = left.get((g.file, g.line), 0) + 1
        out = []
        for k, (name, kind, line) in enumerate(self.cands, 1):
            if left.get((name, line), 0):
                left[(name, line)] -= 1
                out.append(k)
        if any(left.values()):
            return "unexpected %s" % {k: v for k, v in left.items() if v}
        return out


def make_layout(d, tag, rng, big):
    dirs = ["inc", "lib", "inc/sub", "third.party/inc", "build-x/gen", "src", "lib2/inc"]
    names = ["a", "b", "qfoo", "lib", "main", "util_inc", "x.y"]
    used, files, inc, cands = set(), {}, [], []
    n = rng.randint(3, 6) if big else 3
    flags = []
    for k in range(n):
        dr = dirs[k] if not big else rng.choice(dirs)
        nm = rng.choice(names) + str(k) + rng.choice([".h", ".hpp", ".cpp"])
        kind = rng.choice(["header", "header", "header", "system", "pragma"]) if big else ("system" if k == 2 else "header")
        files[dr + "/" + nm] = ("#pragma GCC system_header\n" if kind == "pragma" else "") + BODY % dict(tag="h%d" % k)
        flag = ("-isystem" if kind == "system" else "-I") + dr
        via = rng.choice(["", "./"]) if big else ""
        if kind == "system":
            via = ""
            # each system directory is only used for that file
            sysd = "sys%d" % k
            files[sysd + "/" + nm] = files.pop(dr + "/" + nm)
            dr, flag = sysd, "-isystem" + sysd
        if flag not in flags:
            flags.append(flag)
        inc.append("<%s%s>" % (via, nm))
        # the name is that of the first directory of the search path; names are unique, so it is this one
        cands.append((dr + "/" + via + nm, "system" if kind in ("system", "pragma") else "header", 4 if kind == "pragma" else 3))
        if big and kind == "header" and rng.random() < .35:
            up = "../" * (dr.count("/") + 1) + dr + "/" + nm     # the same file by another name
            inc.append("<%s>" % up)
            cands.append(cands[-1])                              # clang knows a file by the first name it met
    macro = rng.choice(["", "header", "system"]) if big else "header"
    if macro:
        md = "macros" if macro == "header" else "sysmacros"
        files[md + "/mac.h"] = '#define FROM_MACRO (void)qgetenv("M").isEmpty();\n'
        flags.append(("-I" if macro == "header" else "-isystem") + md)
        inc.append("<mac.h>")
    main = rng.choice(["main.cpp", "src/main.cpp", "lib/inc.cpp"]) if big else "main.cpp"
    L = Layout(d, tag, files, dict(flags=flags, list=inc, macro=bool(macro)), main)
    base = 1 + len(inc)
    cands.append((L.main, "main", base + 3))
    if macro:
        cands.append((L.main, "main", base + 4))
    L.cands = cands
    return L


def body(ctx):
    rng = ctx.rng
    with clz.Scratch() as d:
        lays = [make_layout(d, "s0", rng, False), make_layout(d, "s1", rng, True), make_layout(d, "s2", rng, True)]
        names = sorted({c[0] for L in lays for c in L.cands})
        last = lambda n: n.split("/")[-1]
        texts = ["", esc(last(lays[0].cands[0][0])) + "$", "^inc", "inc", ".*", "^lib/", "main", "^" + esc(lays[0].main) + "$", esc("third.party"),
                 "in*c/|^lib", "nomatch", "s.s", "^nomatch|\\.h"] + (["^.*/sub/", "x*", esc(lays[1].cands[1][0]), "/\\./"] if ctx.thorough else [])
        pats = [pat(t) for t in texts]
        par = os.path.join(d, "par.json")
        json.dump(dict(layouts=[[dict(name=n, kind=k) for n, k, _ in L.cands] for L in lays], patterns=pats, modes=["option", "env", "both"]), open(par, "w"))
        recs = replay.behaviours(ctx, "MCFilter", INVS, dict(PARAMS=par))
        ctx.exhaustive = True
        if not ctx.thorough:
            recs = [x for x in recs if x["layout"] == 1 or rng.random() < .5]
        jobs = []
        for x in recs:
            t = lambda k: texts[x[k] - 1]
            opts, env = dict(hf=t("hfOpt"), ign=t("ignOpt")), dict(hf=t("hfEnv"), ign=t("ignEnv"))
            if not (opts["hf"] or opts["ign"]):
                jobs.append((x, "plugin", opts, env))
            if opts["hf"] or opts["ign"] or rng.random() < .5:
                jobs.append((x, "standalone", opts, env))

        def one(j):
            x, fe, opts, env = j
            L = lays[x["layout"] - 1]
            for attempt in (0, 1):
                r = L.observe(fe, opts, env)
                got = L.shown(r)
                if got == x["shown"]:
                    return None
            return (fe, L, opts, env, x["shown"], got, r)
        bad = [b for b in clz.pmap(one, jobs) if b]
        ctx.validated += len(jobs)
        ctx.sample(dict(kind="replayed", layout=lays[0].cands, config=jobs[len(jobs) // 3][2:], shown=jobs[len(jobs) // 3][0]["shown"]))

        # recorded runs
        big = [make_layout(d, "r%d" % i, rng, True) for i in range(60 if ctx.thorough else 20)]

        def rpat(L):
            r = rng.random()
            n = rng.choice(L.cands)[0]
            if r < .25:
                return ""
            if r < .6:
                a = rng.randrange(len(n))
                s = esc(n[a:a + rng.randint(1, 12)])
                return rng.choice(["", "", "^"]) + s + rng.choice(["", "", "$"])
            if r < .75:
                s = esc(n)
                return "^" + s[:rng.randint(1, len(s))].rstrip("\\") if rng.random() < .5 else s + "$"
            if r < .9:
                p = [esc(x) for x in rng.sample([x for x in n.split("/") if x], min(2, len([x for x in n.split("/") if x])))]
                return "|".join(p)
            return rng.choice([".*", "inc/.*", "/[a-z]*".replace("[a-z]*", ".*") + "h$", "x*y", "^\\.", "\\.h$|\\.hpp$", ".*/.*/.*"])
        runs = []
        for L in big:
            for _ in range(40 if ctx.thorough else 16):
                fe = rng.choice(["plugin", "standalone"])
                o = dict(hf=rpat(L), ign=rpat(L)) if fe == "standalone" and rng.random() < .7 else {}
                e = dict(hf=rpat(L), ign=rpat(L)) if fe == "plugin" or rng.random() < .5 else {}
                runs.append((L, fe, o, e))

        def rec(j):
            L, fe, o, e = j
            r = L.observe(fe, o, e)
            got = L.shown(r)
            if not isinstance(got, list):
                r = L.observe(fe, o, e)
                got = L.shown(r)
            return (L, fe, o, e, got, r)
        rows, meta = [], []
        for L, fe, o, e, got, r in clz.pmap(rec, runs):
            if not isinstance(got, list):
                bad.append((fe, L, o, e, "a readable run", got, r))
                continue
            rows.append(dict(cands=[dict(name=n, kind=k) for n, k, _ in L.cands], hfOpt=pat(o.get("hf", "")), hfEnv=pat(e.get("hf", "")),
                             ignOpt=pat(o.get("ign", "")), ignEnv=pat(e.get("ign", "")), shown=got))
            meta.append((fe, L, o, e, r))
        for k in replay.validate(ctx, d, "TraceFilter", rows, invs="InvExact InvSystem"):
            fe, L, o, e, r = meta[k]
            bad.append((fe, L, o, e, "what TraceFilter accepts", rows[k]["shown"], r))
        good = next(r for r in rows if r["shown"])
        replay.must_reject(ctx, d, "TraceFilter", {**good, "shown": good["shown"][1:]})
        ctx.sample(dict(kind="recorded", row={k: v for k, v in rows[0].items() if k in ("cands", "shown")}, options=runs[0][2], env=runs[0][3]))
        for fe, L, o, e, exp, got, r in bad:
            rel = [(n.replace(d, ""), k) for n, k, _ in L.cands]
            ctx.violation("%s:%s:%s:%s" % (fe, rel, o, e), "%s with options %s, environment %s: of the warnings in %s, shown %s, must be %s" % (
                fe, o, e, rel, got, exp), dict(cmd=r.cmd, stderr=r.err[-2000:]))


if __name__ == "__main__":
    common.main("C04", body)
