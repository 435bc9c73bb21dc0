"""Texts for spec/Normalize.tla: where they stand in C++, and what clazy and Qt make of them."""
import os, re, subprocess
import clz, tlc

QT = "/usr/include/x86_64-linux-gnu/qt5"
ORACLE = """#include <QtCore/QByteArray>
#include <QtCore/QMetaObject>
#include <iostream>
#include <string>
int main() { std::string l; while (std::getline(std::cin, l)) { QByteArray r = l[0] == 't' ? QMetaObject::normalizedType(l.c_str() + 1) : QMetaObject::normalizedSignature(l.c_str() + 1); std::cout << r.constData() << "\\n"; } }
"""
PRE = """const char *qFlagLocation(const char *method);
const char *qFlagLocation(const char *method, int);
#define SIGNAL(a) qFlagLocation("2"#a "\\0" "f.cpp:1")
#define SLOT(a) qFlagLocation("1"#a "\\0" "f.cpp:1")
#define METHOD(a) qFlagLocation("0"#a "\\0" "f.cpp:1")
struct QString { QString(const char *); operator const char *() const; };
QString operator+(const QString &, const char *);
struct QObject { static bool connect(const QObject *, const char *, const QObject *, const char *, int = 0); bool connect(const QObject *, const char *, const char *) const;
  static bool disconnect(const QObject *, const char *, const QObject *, const char *); static void singleShot(int, const QObject *, const char *); bool connected(const char *); };
void connect(const char *); void connect(const char *, void *); template <class F> bool connect(const char *, F) { return true; } void use(bool); void use(const char *); const char *same(const char *);
template <class T> struct Tmpl { void connect(const char *); };
struct QGenericArgument { QGenericArgument(const char *n = nullptr, const void *d = nullptr); };
struct QGenericReturnArgument : QGenericArgument { QGenericReturnArgument(const char *n = nullptr, void *d = nullptr); };
template <class T> struct QArgument : QGenericArgument { QArgument(const char *n, const T &d); explicit QArgument(const char *n); };
template <class T> struct QReturnArgument : QGenericReturnArgument { QReturnArgument(const char *n, T &d); };
template <class T> struct QMyArgument { QMyArgument(const char *n, const T &d); };
struct QMetaMethodArgument { const char *n; }; struct QMetaMethodReturnArgument { const char *n; }; struct QMetaOther { const char *n; };
namespace QtPrivate { namespace Invoke { QMetaMethodArgument argument(const char *, const int &); QMetaMethodReturnArgument returns(const char *, int &); QMetaOther other(const char *, int &); QMetaMethodArgument one(const char *);
  template <class T> QMetaMethodArgument tmpl(const char *, const T &) { return {}; } } }
#define MY_CONNECT(o, x) QObject::connect(o, x, o, "y")
#define MY_LOOKS(x) connect(x)
QObject *o; int data;
void invoke(QGenericArgument); void invoke(QMetaMethodArgument); void invoke(QGenericReturnArgument);
void uses()
{
"""
# @ is the text: a call or a string literal
SIG = [("QObject::connect(o, @, o, 0);", 1), ("QObject::connect(o, 0, o, (@), 1);", 1), ("o->connect(o, @, 0);", 1), ("connect(@);", 1), ("use(QObject::connect(o, @, o, 0));", 1),
       ("QObject::connect(o, data ? @ : 0, o, 0);", 1), ("if (o->connect(o, static_cast<const char *>(@), 0)) {}", 1), ("use([] { return QObject::connect(o, @, o, 0); }());", 1),
       ("MY_CONNECT(o, @);", 1), ("MY_LOOKS(@);", 1), ("Tmpl<int>().connect(@);", 1), ("connect(\"x\", [] { connect(@); });", 1), ("for (int i = 0; i < 2; ++i) connect((const char *)@);", 1),
       ("QObject::disconnect(o, @, o, 0);", 0), ("QObject::singleShot(1, o, @);", 0), ("o->connected(@);", 0), ("use(@);", 0), ("{ const char *s = @; use(s); }", 0),
       ("connect(same(@));", 0), ("connect(QString(\"a\") + @);", 0), ("connect(\"x\", [] { return use(@); });", 0)]
TYPE = [("invoke(QArgument<int>(@, data));", 1), ("invoke(QReturnArgument<int>(@, data));", 1), ("{ QArgument<int> a(@, data); }", 1), ("invoke(QtPrivate::Invoke::argument(@, data));", 1),
        ("QtPrivate::Invoke::returns(@, data);", 1), ("invoke(QtPrivate::Invoke::tmpl<long>(@, 3L));", 1), ("invoke(QArgument<QString>((@), \"x\"));", 1), ("auto l@L = [] { invoke(QArgument<int>(@, data)); };", 1),
        ("QMyArgument<int>(@, data);", 0), ("QtPrivate::Invoke::other(@, data);", 0), ("invoke(QtPrivate::Invoke::one(@));", 0), ("{ QArgument<int> a(@); }", 0), ("{ const char *n = @; invoke(QArgument<int>(n, data)); }", 0),
        ("QGenericArgument(@, &data);", 0)]
CODE = {"0": "METHOD", "1": "SLOT", "2": "SIGNAL"}
MSG = re.compile(r"Signature is not normalized\. Use (.*) instead of (.*)$", re.S)


def lex(text):
    return re.findall(r"[A-Za-z0-9_$]+|.", text)


def as_macro(text):
    """could SIGNAL() and the like give this text?"""
    t = text[1:]
    if text[:1] not in CODE or not re.match(r"[A-Za-z_]", t) or t != t.strip() or "  " in t or re.search(r"[\t/'\"\\#;]", t):
        return None
    d = 0
    for c in t:
        d += (c == "(") - (c == ")")
        if d < 0 or (c == "," and d == 0):
            return None
    return "%s(%s)" % (CODE[text[0]], t) if d == 0 else None


class Unit:
    def __init__(self, rng):
        self.rng, self.lines, self.of = rng, PRE.split("\n")[:-1], {}

    def add(self, key, kind, text, looked=None):
        r = self.rng
        use, lk = r.choice([p for p in (SIG if kind == "sig" else TYPE) if looked in (None, p[1])])
        lit = '"%s"' % text
        if r.random() < .1 and len(text) > 3:
            k = r.randrange(1, len(text))
            lit = '"%s" "%s"' % (text[:k], text[k:])
        elif r.random() < .05:
            lit = 'R"(%s)"' % text
        if kind == "sig":
            m = as_macro(text) if r.random() < .7 else None
            lit = m or "qFlagLocation(%s)" % (lit if r.random() < .7 else lit + ' "\\0junk( int )"')
            if not m and r.random() < .05:
                lit, lk = lit[:-1] + ", 1)", 0
        self.lines.append("  " + use.replace("@L", str(len(self.lines))).replace("@", lit))
        self.of[len(self.lines)] = key
        return bool(lk)

    def run(self, d, name):
        """key -> the list of reports [use, instead of]; a string when something unexpected is said"""
        self.path = os.path.join(d, name + ".cpp")
        with open(self.path, "w") as f:
            f.write("\n".join(self.lines + ["}", ""]))
        r = clz.plugin(self.path, ["connect-not-normalized"], stubs=False, flags=["-Wno-everything", "-Wclazy", "-ferror-limit=3"])
        self.cmd = r.cmd
        got = {}
        for x in r.diags:
            if x.sev == "note":
                continue
            m = MSG.match(x.msg)
            if not m or x.line not in self.of:
                return "%s:%d: %s: %s" % (x.file, x.line, x.sev, x.msg)
            got.setdefault(self.of[x.line], []).append([m.group(1), m.group(2)])
        if r.rc:
            return "exit status %d\n%s" % (r.rc, r.err[-1500:])
        return got


class Qt:
    """Qt itself: the library's QMetaObject"""

    def __init__(self, d):
        self.exe = os.path.join(d, "oracle")
        src = self.exe + ".cpp"
        with open(src, "w") as f:
            f.write(ORACLE)
        p = subprocess.run(["g++", "-O0", "-std=c++17", "-fPIC", "-I" + QT, "-I" + QT + "/QtCore", src, "-lQt5Core", "-o", self.exe], capture_output=True, text=True)
        if p.returncode:
            raise tlc.ModelError("no Qt to compare the specification with\n" + p.stderr[-2000:])

    def __call__(self, rows):
        p = subprocess.run([self.exe], input="".join("%s%s\n" % (k[0], t) for k, t in rows), capture_output=True, text=True)
        return p.stdout.split("\n")[:-1]


WORDS = ["int", "long", "unsigned", "const", "char", "A", "B", "V", "short", "struct", "class", "enum", "void", "N", "constA", "unsignedA", "volatile", "float", "QString", "A1", "x_const"]


def type_text(r, depth=0):
    b = r.choice(["int", "A", "QString", "unsigned", "unsigned int", "unsigned long", "unsigned long int", "unsigned long long", "unsigned short", "unsigned char", "long", "long int", "long long",
                  "N::A", "::A", "struct A", "class A", "enum B", "void", "constA", "unsignedA", "volatile int", "float", "N::V<>", "A1"])
    if depth < 4 and r.random() < .4:
        b = r.choice(["QList", "N::V", "::V", "QMap"]) + "<" + r.choice(["", " ", ""]) + (r.choice([",", ", ", " ,"])).join(type_text(r, depth + 1) for _ in range(r.randint(1, 3))) + r.choice(["", " "]) + ">"
    c = r.choice(["", "", "", "pre", "post", "both"])
    s = ("const " if c in ("pre", "both") else "") + b + (r.choice([" ", "  ", " "] if b[-1] != ">" else ["", " "]) + "const" if c in ("post", "both") else "")
    s += r.choice(["", "", " "]) + r.choice(["", "", "", "*", "**", "* const", "*const*", "&", "&&", "*&", "* const &", " & "])
    if r.random() < .05:
        s += r.choice(["[2]", "(*)(int)", "(*)(const A &)", "::const_iterator"])
    return s


def random_text(r):
    if r.random() < .3:
        # anything
        t = []
        for _ in range(r.randint(1, 12)):
            x = r.choice(WORDS + ["<", ">", ",", "(", ")", "*", "&", ":", " ", "  ", "\t", "[", "]", "{", "}", "=", "<", ">", " ", " ", " "])
            if t and re.match(r"\w", t[-1]) and re.match(r"\w", x):
                t.append(" ")
            if t and not t[-1].strip() and not x.strip():
                continue
            t.append(x)
        s = "".join(t)
    else:
        s = None
    if r.random() < .4:
        return "type", s or type_text(r)
    n = r.choice(["f", "valueChanged", "operator()", "f_1", "const_f", "unsigned_"])
    if s is None:
        s = r.choice([",", ", ", " , "]).join(type_text(r) for _ in range(r.choice([0, 1, 1, 2, 3]))) or r.choice(["", "void", " ", " void "])
    return "sig", r.choice("012") + n + r.choice(["", "", " "]) + "(" + r.choice(["", "", " "]) + s + r.choice(["", " "]) + ")" + r.choice(["", "", "", " const", " "])
