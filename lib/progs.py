"""Random C++ programs over the snippet corpus, and identifiable diagnostics of runs over them."""
import os, re
import clz, corpus, session

# snippets whose text cannot go into a macro body (directives) or which only act as plain text
PLAIN = re.compile(r"^#")
FLAGS = ["-Wno-everything", "-fdiagnostics-parseable-fixits"]


class Program:
    """items: [(check, text, how)]; how: plain, join (same line as the one before), ns, macro, margs, user, sys"""

    def __init__(self, d, name, items, broken=False, qt=6, first=""):
        self.d, self.name, self.items, self.qt = d, name, items, qt
        os.makedirs(os.path.join(d, "sys"), exist_ok=True)
        main, heads = corpus.triggers.PRELUDE + first, {"user": "#pragma once\n", "sys": "#pragma once\n"}
        body = ""
        for k, (c, t, how) in enumerate(items):
            t = t.replace("@", ("X%d" if not t.startswith("#") else "%d") % k)
            if how in heads:
                heads[how] += t + "\n"
            elif how == "join" and body and not PLAIN.match(body.split("\n")[-2]):
                body = body[:-1] + " " + t + "\n"
            elif how == "ns":
                body += "namespace N%d { %s }\n" % (k, t)
            elif how == "macro":
                body += "#define MACRO%d %s\nMACRO%d\n" % (k, t, k)
            elif how == "margs":
                body += "#define MARGS%d(...) __VA_ARGS__\nMARGS%d(%s)\n" % (k, k, t)
            elif how in ("usermacro", "sysmacro"):
                heads[how[:-5]] += "#define IN%d %s\n" % (k, t)
                body += "IN%d\n" % k
            else:
                body += t + "\n"
        self.flags = FLAGS + ["-DQT_VERSION_MAJOR_STUB=%d" % qt, "-I", d, "-isystem", os.path.join(d, "sys")]
        if broken:
            body += "int broken_ = undeclared_;\n"
        self.broken = broken
        if heads["sys"].count("\n") > 1:
            main += "#include <%s_sys.h>\n" % name
            open(os.path.join(d, "sys", name + "_sys.h"), "w").write(corpus.triggers.PRELUDE + heads["sys"])
        if heads["user"].count("\n") > 1:
            main += '#include "%s_user.h"\n' % name
            open(os.path.join(d, name + "_user.h"), "w").write(corpus.triggers.PRELUDE + heads["user"])
        self.main = os.path.join(d, name + ".cpp")
        self.text = main + body
        open(self.main, "w").write(self.text)

    def ok(self):
        """does it compile without clazy?"""
        r = clz._run([clz.CLANG, "-fsyntax-only", "-std=c++20", "-isystem", clz.STUBS] + self.flags + [self.main])
        return r.rc == 0 or self.broken


def random_program(rng, d, name, n, hows=("plain",), weights=None, broken=False, qt=None, only=None):
    sn = [x for x in corpus.all_snippets() if only is None or x[0] in only]
    items = []
    for _ in range(n):
        c, t = rng.choice(sn)
        how = rng.choices(hows, weights)[0]
        if how not in ("plain", "user", "sys") and (PLAIN.match(t) or "Q_OBJECT" in t and how == "margs"):
            how = "plain"
        if how == "ns" and ("namespace" in t or "qHash" in t):
            how = "plain"
        items.append((c, t, how))
    return Program(d, name, items, broken, qt if qt is not None else rng.choice([6, 6, 58]))


def ident(d, fixes=()):
    return "%s:%d:%d:%s:%s:%s:%s" % (os.path.basename(d.file), d.line, d.col, d.sev, d.check, d.msg,
                                  ";".join("%s,%d,%d,%d,%d,%s" % ((os.path.basename(f[0]),) + tuple(f[1:])) for f in fixes))


def observe(r):
    """(sorted list of identities, with duplicates, of the tagged diagnostics)"""
    return sorted(ident(g, fx) for g, fx in session.with_fixes(r.err) if g.check)
