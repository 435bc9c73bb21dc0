"""Class bodies for spec/Sections.tla: their C++ text, and what clazy and moc say of them."""
import json, os, re, subprocess
import clz, tlc

CHECKS = ["fully-qualified-moc-types", "virtual-signal", "const-signal-or-slot", "signal-with-return-value", "connect-by-name",
          "overridden-signal", "incorrect-emit", "connect-non-signal", "thread-with-slots"]
MOCS = [m for m in ("/usr/lib/qt5/bin/moc", "/usr/lib/qt6/libexec/moc") if os.path.exists(m)]
PRE = """#pragma once
#ifndef Q_MOC_RUN
#include <qtstub.h>
#define Q_REVISION(v)
#define DEPRECATED_ [[deprecated]]
#endif
namespace N { struct T {}; struct D;
"""
OTHER = ["Q_PROPERTY(int p@ READ p@)", 'Q_CLASSINFO("a@", "b")', "enum E@ { P@ };", "int x@;", "int x@, y@;", "typedef int U@;", "using Z@ = int;",
         'static_assert(1, "");', "struct Fwd@;", "union { int q@; float r@; };", "int b@ : 3;", "int f@ = 3;", "int g@{4};", "int a@[3] = {1, 2, 3};",
         "int (*fp@)(int);", "struct In@ *ptr@() const;", "template <class X> struct TT@ { void n(X); };", "D *p@;", 'const char *s@ = "signals:";',
         "enum class EC@ : int { A@ };", "static const int K@ = 3;", "int operator()(int (&)[@]);", "#ifdef UNDEFINED_\n  Q_SIGNALS:\n#endif", "mutable int mu@ = 0;"]
FRIEND = ["friend class ZZ@;", "friend struct D;", "friend bool operator==(const D &, int (&)[@]);", "// signals:", "/* public slots: */", "#ifdef UNDEFINED_\n  public:\n#endif"]
TXT = dict(SIGNAL="Q_SIGNAL", SLOT="Q_SLOT", INVOKABLE="Q_INVOKABLE", SCRIPTABLE="Q_SCRIPTABLE")


class Unit:
    """One header (what moc reads) and one source file with the uses."""

    def __init__(self, rng, keywords=True, plain=False):
        self.rng, self.keywords, self.plain = rng, keywords, plain
        self.files, self.c = [PRE.split("\n")[:-1]], []     # headers, the last file being the source file
        self.hown, self.cown = {}, {}      # (file, line) / line -> (program, owner)
        self.names = {}                    # (class name, method name) -> (program, owner)
        self.n = 0

    h = property(lambda s: s.files[-1])

    def put(self, text, who=None):
        for l in text.split("\n"):
            self.h.append("  " + l)
            if who:
                self.hown[len(self.files), len(self.h)] = who

    def kw(self, long, short):
        return short if self.keywords and self.rng.random() < .5 else long

    def spec(self, i):
        r = self.rng
        if i["k"] == "access":
            t = r.choice(["public", "protected", "private"])
            if i.get("pub"):
                t = "public"
            return t + r.choice([":", ":", " :"] if not self.plain else [":"])
        if i["k"] == "signals":
            w, tail = self.kw("Q_SIGNALS", "signals"), ":"
        else:
            w, tail = r.choice(["public", "protected", "private"]) + (" " if self.plain else r.choice([" ", " ", "\n", " /* x */ "])) + self.kw("Q_SLOTS", "slots"), ":"
        return w + ("" if self.plain else r.choice(["", "", " ", "\n", " /* public: */ "])) + tail

    def method(self, i, name, sec, kind):
        r = self.rng
        marks = [TXT[m] for m in i["marks"]]
        ret = "void" if i["void"] else "int"
        params = "(T)" if self.plain or i["k"] == "body" else r.choice(["(T)", "(T)", "(T t)", "(T, int = 0)" if i.get("free") else "(T)", "(T)"])
        if i.get("shared"):
            params = "(T)"
        tail = " const" if i["cst"] else ""
        if i["k"] == "body":
            return "%s %s%s%s" % (ret, name, params, tail), False
        pre, post, end, static, tmpl = [], [], ";", False, False
        forms = ["plain"] * 4
        if not self.plain and kind != "local":
            if not i["virt"]:
                forms += ["auto"]
            if sec != "signal" and not i["virt"]:
                forms += ["inline", "constexpr", "body"]
            if not i["virt"] and not i["cst"] and not i.get("shared"):
                forms += ["static"]
            if not i["virt"] and sec == "none" and kind == "object" and not i.get("shared") and set(i["marks"]) <= {"INVOKABLE", "SCRIPTABLE"}:
                forms += ["template"]
            if not i["void"]:
                forms += ["nodiscard"]
            if marks:
                forms += ["revision"]
            forms += (["deprecated"] if sec != "signal" else []) + (["noexcept"] if not i.get("shared") else [])
        f = r.choice(forms)
        body = " { return 0; }" if not i["void"] else " {}"
        words = []
        if i["virt"]:
            words.append("virtual")
            if not self.plain and sec != "signal" and r.random() < .3:
                end = " = 0;"
        if f in ("inline", "constexpr", "static"):
            words.append(f)
        if f in ("inline", "body", "constexpr"):
            end = body
        # the marks stand anywhere between the other words
        for m in marks:
            words.insert(r.randint(0, len(words)) if not self.plain else 0, m)
        if f == "nodiscard" and r.random() < .5:
            words.insert(0, "[[nodiscard]]")
        elif f == "nodiscard":
            words.append("[[nodiscard]]") if not (set(words) & {"virtual", "static", "inline", "constexpr"}) else words.insert(0, "[[nodiscard]]")
        if f == "revision":
            words.insert(r.randint(0, len(words)), "Q_REVISION(1)")
        if f == "template":
            words.insert(0, "template <class X>")
            params = "(X, T)"
        if f == "noexcept":
            tail += " noexcept"
        if f == "auto":
            ret, tail = "auto", tail + " -> " + ret
        text = ""
        for w in words:
            text += w + (" " if self.plain else r.choice([" "] * 5 + ["\n", " /* Q_SIGNAL */ "]))
        text += "%s %s%s%s%s" % (ret, name, params, tail, end)
        if not self.plain and r.random() < .15:
            text += r.choice([" // signals:", " /* Q_INVOKABLE */"])
        return text, f in ("static", "template")

    def program(self, key, items, uses=(), inherit=()):
        """items as in the specification.  Returns the uses that could be written down."""
        r, stack, cn, done = self.rng, [], "", []
        name, nouse, cls_of, src, thread = {}, set(), {}, {}, {"C%s_%d" % (key, i["cls"]): i["thread"] for i in items if i["k"] == "class"}
        for i in items:
            k = i["k"]
            self.n += 1
            if k == "class":
                cn = "C%s_%d" % (key, i["cls"])
                if not self.plain and len(self.files) < 4 and r.random() < .1:
                    self.files.append(["namespace N {"])
                base = "C%s_%d" % (key, i["base"]) if i["base"] else "QThread" if i["thread"] else "QObject"
                if i["body"] == "plain":
                    self.h.append("#ifndef Q_MOC_RUN"), self.put("struct %s {" % cn)    # moc refuses signals and slots there
                elif i["body"] == "gadget":
                    self.put("struct %s {" % cn), self.put("Q_GADGET")
                else:
                    self.put("class %s : public %s {" % (cn, base)), self.put("Q_OBJECT"), self.put("void use_();" if self.plain or r.random() < .7 else "public:\nvoid use_();\nprivate:")
                    if i["thread"]:
                        self.put("int x_;")
                stack.append([i["body"], "none"])
            elif k == "end":
                self.put("};\n#endif" if stack[-1][0] == "plain" else "};"), stack.pop()
            elif k in ("access", "slots", "signals"):
                self.put(self.spec(i))
                stack[-1][1] = dict(access="none", slots="slot", signals="signal")[k]
            elif k == "other":
                self.put(("int x@;" if self.plain else r.choice(OTHER)).replace("@", str(self.n)))
            elif k == "friend":
                self.put(("friend class ZZ@;" if self.plain else r.choice(FRIEND)).replace("@", str(self.n)))
            elif k == "nest":
                self.put("struct In%d {" % self.n), stack.append(["nested", "none"])
            elif k == "unnest":
                self.put("};"), stack.pop()
            elif k in ("method", "body"):
                nm = ("on_b%s_c" if i["byname"] else "m%s") % i["name"]
                t, no = self.method(i, nm, stack[-1][1], stack[-1][0])
                who = (key, "m%d" % i["id"])
                if k == "body":
                    self.put(t + " {", who), self.put(("struct L%d : QObject {" if self.plain or r.random() < .7 else "struct L%d {") % self.n), stack.append(["local", "none"])
                else:
                    self.put(t, who if stack[-1][0] != "local" else (key, None))   # moc doesn't look into bodies: left open
                if stack[-1][0] == "object" or (k == "body" and stack[-2][0] == "object"):
                    name[i["id"]], cls_of[i["id"]] = nm, cn
                if stack[-1][0] in ("object", "gadget", "plain") or k == "body":
                    self.names[cn, nm] = who
                if no:
                    nouse.add(i["id"])
                if k == "method" and t.split("//")[0].split("/* Q_INV")[0].rstrip().endswith((")", ");", "const;", "noexcept;", "int;", "void;")) and "constexpr" not in t and not self.plain:
                    src[i["id"]] = ("int" if not i["void"] else "void", " const" if i["cst"] else "", " noexcept" if "noexcept" in t else "", "(T, int)" if ", int" in t else "(T)", stack[-1][1], i["cst"])
            elif k == "bodyend":
                self.put("}; }" if items_void(items, i) else "}; return 0; }"), stack.pop()
        by = {}
        for u in uses:
            if u["id"] in name and not (u["id"] in nouse and u["use"] in ("connect", "receive")) and u["id"] not in nouse:
                by.setdefault(cls_of[u["id"]], []).append(u)
        for c, us in by.items():
            self.c.append("void N::%s::use_() { %s *p = this; D *d = nullptr; (void)p; (void)d;" % (c, c))
            for u in us:
                if u["use"] == "define":
                    continue
                nm = name[u["id"]]
                emit = self.kw("Q_EMIT", "emit") if self.keywords else "Q_EMIT"
                self.c.append(dict(emit="%s p->%s(T());" % (emit, nm), call="p->%s(T());" % nm, connect="QObject::connect(p, &%s::%s, p, [] {});" % (c, nm),
                                   receive="QObject::connect(p, &QObject::destroyed, p, &%s::%s);" % (c, nm))[u["use"]])
                self.cown[len(self.c)] = (key, "u%d" % u["n"])
                done.append(u)
            self.c.append("}")
            for u in us:
                x = src.get(u["id"])
                if u["use"] == "define" and x and x[4] != "signal" and "SIGNAL" not in [i for i in items if i.get("id") == u["id"]][0]["marks"]:
                    self.c.append("%s N::%s::%s%s%s%s { %s%s }" % (x[0], c, name[u["id"]], x[3], x[1], x[2], "x_ = 1; " if thread[c] and not x[5] else "(void)x_; " if thread[c] else "", "return 0;" if x[0] == "int" else ""))
                    self.cown[len(self.c)] = (key, "u%d" % u["n"])
                    done.append(u)
        return done

    def write(self, d, name):
        self.name = name
        self.cp = os.path.join(d, name + ".cpp")
        self.paths, incs = [], ""
        if len(self.files) == 1:
            self.files.append(["namespace N {"])
        for k, f in enumerate(self.files[:-1]):
            self.paths.append(os.path.join(d, "%s_%d.h" % (name, k + 1)))
            open(self.paths[-1], "w").write("\n".join(f) + "\n}\n")
            incs += '#include "%s"\n' % os.path.basename(self.paths[-1])
        main = incs + "\n".join(self.files[-1]) + "\nstruct D {}; }\n"
        self.skip, self.off = incs.count("\n"), main.count("\n")
        self.paths.append(self.cp)
        open(self.cp, "w").write(main + "\n".join(self.c) + "\n")

    def run(self):
        """{program: set of [owner, tag]} as clazy reports, or a string"""
        r = clz.plugin(self.cp, [",".join(CHECKS)], flags=["-Wno-everything"] + ([] if self.keywords else ["-DQT_NO_KEYWORDS"]), cwd=os.path.dirname(self.cp))
        self.cmd = r.cmd
        if r.rc != 0 and re.search(r"\.(h|cpp):\d+:\d+: error: ", r.err):
            raise tlc.ModelError("the generated code is wrong: " + "\n".join(l for l in r.err.split("\n") if "error: " in l)[:1500])
        if r.rc != 0:
            return "exit status %d: %s" % (r.rc, r.err[-1500:])
        got = {}
        for g in r.diags:
            if not g.check:
                continue
            f = [os.path.basename(p) for p in self.paths].index(os.path.basename(g.file)) + 1 if os.path.basename(g.file) in [os.path.basename(p) for p in self.paths] else 0
            who = self.hown.get((f, g.line - (self.skip if f == len(self.paths) else 0))) or (self.cown.get(g.line - self.off) if f == len(self.paths) else None)
            if who and who[1] is None:
                continue
            if not f:
                continue
            tag = g.check + (" " + g.msg.split()[0] if g.check == "fully-qualified-moc-types" else "")
            if who is None:
                return "a report at %s:%d where nothing is declared: %s" % (os.path.basename(g.file), g.line, g.msg)
            got.setdefault(who[0], set()).add((who[1], tag))
        return got

    def moc(self, tool):
        got = {}
        for path in self.paths:
            out = path + "." + os.path.basename(os.path.dirname(os.path.dirname(tool))) + ".moc"
            p = subprocess.run([tool, "--output-json"] + ([] if self.keywords else ["-DQT_NO_KEYWORDS"]) + [path, "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
            if p.returncode:
                return "moc refuses it: " + p.stdout[-400:]
            if not os.path.exists(out + ".json") or not os.path.getsize(out + ".json"):   # there is no class for moc
                continue
            for c in json.load(open(out + ".json")).get("classes", []):
                for lst, kind in (("signals", "signal"), ("slots", "slot"), ("methods", "invokable")):
                    for m in c.get(lst, []):
                        who = self.names.get((c["className"], m["name"]))
                        if who is None:
                            return "moc lists %s::%s" % (c["className"], m["name"])
                        got.setdefault(who[0], set()).add((who[1], kind))
        return got


def items_void(items, end):
    depth = 0
    for i in reversed(items[:next(n for n, x in enumerate(items) if x is end)]):
        if i["k"] == "bodyend":
            depth += 1
        elif i["k"] == "body":
            if not depth:
                return i["void"]
            depth -= 1


def random_items(rng, n, maxclasses=3):
    """(items, uses): legal for moc by construction"""
    items, uses, ids, shared = [], [], [0], ["s1", "s2", "s3"]
    made = []

    def meth(sec, kind, names):
        ids[0] += 1
        i = ids[0]
        marks = []
        if kind == "object":
            x = rng.random()
            if sec == "none":
                marks = rng.choice([[], [], [], ["SIGNAL"], ["SLOT"], ["INVOKABLE"], ["INVOKABLE"], ["SCRIPTABLE"], ["SCRIPTABLE", "INVOKABLE"], ["SIGNAL", "INVOKABLE"], ["SLOT", "INVOKABLE"], ["SIGNAL", "SCRIPTABLE"], ["SLOT", "SCRIPTABLE"]])
            elif sec == "slot":
                marks = rng.choice([[], [], [], [], ["SLOT"], ["INVOKABLE"], ["SCRIPTABLE"], ["SLOT", "INVOKABLE"]])
            else:
                marks = rng.choice([[], [], [], [], ["SIGNAL"], ["INVOKABLE"], ["SCRIPTABLE"], ["SIGNAL", "INVOKABLE"], ["SLOT"]])
        elif kind == "gadget":
            marks = rng.choice([[], [], ["INVOKABLE"], ["SCRIPTABLE"], ["INVOKABLE", "SCRIPTABLE"]])
        marks = rng.sample(marks, len(marks))
        sh = [s for s in shared if s not in names]
        name = rng.choice(sh) if sh and kind == "object" and rng.random() < (.8 if family else .3) else str(i)
        names.add(name)
        isshared = name in shared
        m = dict(k="method", id=i, name=name, marks=marks, virt=kind in ("object",) and rng.random() < .15, cst=rng.random() < .2,
                 void=name != "s3" if isshared else rng.random() < .75, byname=not isshared and rng.random() < .08, shared=isshared, free=not isshared)
        if kind == "object":
            for u in rng.sample(["emit", "call", "connect", "receive", "define"], rng.choice([0, 0, 1, 2])):
                uses.append(dict(n=len(uses) + 1, id=i, use=u))
        return m
    family = rng.random() < .35        # a line of classes that share names
    nc = rng.randint(3, 5) if family else rng.randint(1, maxclasses)
    n = min(n, 10) if family else n
    bases = {}
    for c in range(1, nc + 1):
        body = rng.choice(["gadget", "plain", "plain"]) if rng.random() < .25 else "object"
        base = rng.choice(([0] if not family or not bases else []) + [b for b in bases if bases[b] == "object"][-2 if family else 0:] or [0]) if body == "object" else 0
        bases[c] = body
        th = body == "object" and base == 0 and rng.random() < .2
        while base and [i for i in items if i["k"] == "class" and i["cls"] == base][0]["thread"] and not th:
            th = True
        items.append(dict(k="class", cls=c, base=base, body=body, thread=th))
        names, st = set(), [[body, "none"]]
        for _ in range(rng.randint(1, n)):
            kind, sec = st[-1]
            x = rng.random()
            if kind == "local":
                k = rng.choice(["access", "slots", "signals", "method", "bodyend"])
            elif kind == "plain":
                k = rng.choice(["access", "slots", "signals", "method", "method"])
            elif kind == "nested":
                k = rng.choice(["access", "method", "method", "other", "unnest", "nest"])
            elif kind == "gadget":
                k = rng.choice(["access", "method", "method", "method", "other", "friend", "nest"])
            else:
                k = rng.choice(["access", "slots", "signals", "method", "method", "method", "method", "other", "friend", "nest", "body"])
            if k in ("other", "nest") and sec != "none":
                k = "friend"
            if k == "body" and sec != "slot":
                k = "method"
            if k == "method":
                items.append(meth(sec, kind, names))
            elif k == "body":
                m = meth(sec, kind, names)
                items.append({**m, "k": "body", "virt": False, "marks": []})
                st.append(["local", "none"])
            else:
                items.append(dict(k=k, pub=True) if k == "access" and kind == "local" else dict(k=k))
                if k in ("access", "slots", "signals"):
                    st[-1][1] = dict(access="none", slots="slot", signals="signal")[k]
                elif k == "nest":
                    st.append(["nested", "none"])
                elif k in ("unnest", "bodyend"):
                    st.pop()
        while st:
            items.append(dict(k=dict(object="end", plain="end", gadget="end", nested="unnest", local="bodyend")[st.pop()[0]]))
    return items, uses
