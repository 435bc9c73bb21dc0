"""C17: units of spec/FixIt.tla in real translation units against the real Qt headers; fix-its exported, applied and run again."""
import bisect, os
import clz, yaml

Loader = getattr(yaml, "CSafeLoader", yaml.SafeLoader)
ARCH = "/usr/include/x86_64-linux-gnu"
FLAGS = {5: ["-isystem", ARCH + "/qt5"] + sum((["-isystem", ARCH + "/qt5/Qt" + m] for m in ("Core", "Gui", "Widgets")), []),
         6: ["-isystem", ARCH + "/qt6"] + sum((["-isystem", ARCH + "/qt6/Qt" + m] for m in ("Core", "Gui", "Widgets")), [])}
HEADERS = ["QString", "QStringList", "QList", "QVector", "QMap", "QMultiMap", "QHash", "QSet", "QByteArray", "QDateTime", "QFileInfo", "QDir", "QFile", "QPointer",
           "QSharedPointer", "QScopedPointer", "QTimer", "QObject", "QStringBuilder", "QRegularExpression", "QVariant", "QPoint", "QBitArray", "QMenu", "QAction", "QPushButton", "QModelIndex"]
PRELUDE = "".join("#include <%s>\n" % h for h in HEADERS) + """#include <QColor>
#define ID(...) __VA_ARGS__
#define TWICE(x) ((void)(x), (x))
#define CMAC "X"
#define SMAC gstr
#define LMAC gl
#define BAMAC gba
#define COLMAC "#112233"
#define MMAC m
#define TMAC 1000
extern bool gb; extern int gi; extern bool *pb; extern const char *gcc; const char *fcs(int, int);
extern QList<int> gl, gm, *pl; QList<int> &rl(); QList<int> *pf(); QList<int> fl(); QList<int> mk(int, int); extern QList<QList<int>> gll;
extern QString gstr, gstr2, *pstr; QString fstr(); QString fstr2(const QString &, int);
extern QByteArray gba, gba2, *pba; QByteArray fba(); extern QVector<QByteArray> gvb; void fcc(const char *); void fcc2(int, const char *);
extern QFileInfo gfi; QFileInfo finfo(const QString &); QFileInfo finfo(const QString &, const QFileInfo &); QFileInfo *pfi(const QString &); extern QDir gdir; extern QFile gfile;
extern QDateTime gdt, *pdt; using DTAlias = QDateTime; namespace NsAlias { typedef QDateTime DT2; }
extern QPointer<QObject> gp, *pgp; QPointer<QObject> fp(); extern QSharedPointer<QObject> gsp; extern QScopedPointer<QObject> gscp; extern QVector<QPointer<QObject>> gvp; QObject *fpo(QObject *);
extern QMap<int, int> gmap, *pmap; QMap<int, int> fmap(); extern QHash<int, int> ghash; extern QMultiMap<int, int> gmm, *pmm; extern QSet<int> gset; extern QVector<int> gv;
void fcol(const QColor &); struct DList : QList<int> {};
template <class T> void use(T &&, int) {}
struct S { QList<int> l; QString str; QByteArray ba; QList<int> fl(); static QList<int> sl(); static QList<int> sm; QPointer<QObject> p, *pgp; QPointer<QObject> fp(int); QMap<int, int> map; QColor col; QPointer<QObject> qp; };
extern S gs, *ps;
template <class T> void sink(const T &); S fs(); S &frs(); S *fps(); extern QVector<S> gvs; extern const QList<int> cgl; extern DList dl; extern QList<QString> gsl2;
extern QList<QString> gsl, *psl; QList<QString> fsl(); extern QStringList gstrl; void tsl(const QStringList &); void tli(const QList<int> &); extern QTimer gt, *pt; struct DTimer : QTimer {}; extern DTimer *pdt2;
#include <chrono>
using namespace std::chrono_literals;
namespace NS { struct T { int a; }; enum E { E1 }; enum class F { F1 }; typedef QList<int> L; namespace In { struct U { int b; }; } }
class Ov : public QObject {
    Q_OBJECT
public:
    enum E { A };
Q_SIGNALS: void single(int); void over(int); void over(const QString &, int); void sig(int, const QString &); void none();
public Q_SLOTS: void slot(int); void slot2(int, const QString &); void slot0(); void oslot(int); void oslot();
protected Q_SLOTS: void pslot();
};
extern Ov *po, go; Ov *fpov(); extern QPointer<Ov> gqp; QPointer<Ov> fqp(); extern QVector<QPointer<Ov>> gvqp;
"""


class Tu:
    """units of one Qt version in one file, each on a line of its own"""

    def __init__(self, d, name, units, qt, prelude=PRELUDE, std="-std=c++17", silenced=(), options=()):
        self.options = options
        self.d, self.qt, self.units, self.std = d, qt, units, std
        self.main = os.path.join(d, name + ".cpp")
        if prelude:   # what moc would write is there
            prelude += '#include "%s.moc"\n' % name
        open(os.path.join(d, name + ".moc"), "w").close()
        self.base = prelude.count("\n")
        self.prelude = prelude
        self.silenced = set(silenced)
        self.lines = [u["text"].replace("@", self.num(k)) + self.tail(k) for k, u in enumerate(units)]
        self.write(self.lines)

    def tail(self, k):
        return " // clazy:exclude=" + self.units[k]["check"] if k in self.silenced else ""

    @staticmethod
    def num(k):
        return "Z%04d" % k

    def template(self, k, line):
        t = self.tail(k)
        return (line[:-len(t)] if t and line.endswith(t) else line).replace(self.num(k), "@")

    def write(self, lines):
        self.text = self.prelude + "".join(l + "\n" for l in lines)
        self.starts, self.first, pos, line = [], [], len(self.prelude.encode()), self.base + 1
        for l in lines:
            self.starts.append(pos)
            self.first.append(line)
            pos += len(l.encode()) + 1
            line += l.count("\n") + 1
        open(self.main, "w").write(self.text)

    def run(self, checks, front="plugin", extra=()):
        """{unit: [(check, message, [(offset, length, text, file)])]}, Run, errors per unit"""
        y = self.main + ".clazy.yaml"
        if os.path.exists(y):
            os.remove(y)
        env = {"CLAZY_EXTRA_OPTIONS": ",".join(self.options)} if self.options else {}
        flags = FLAGS[self.qt] + ["-fPIC", "-w", "-fno-crash-diagnostics"] + list(extra)
        if front == "plugin":
            r = clz.plugin(self.main, ["export-fixes", ",".join(checks)], flags=flags, cwd=self.d, std=self.std, stubs=False, env=env)
        else:
            r = clz.standalone(self.main, ["-checks=" + ",".join(checks), "-export-fixes=" + y], flags=flags, cwd=self.d, std=self.std, stubs=False, env=env)
        out = {}
        if os.path.exists(y):
            for x in yaml.load(open(y), Loader=Loader)["Diagnostics"]:
                m = x["DiagnosticMessage"]
                if os.path.basename(m["FilePath"]) != os.path.basename(self.main):
                    continue
                k = bisect.bisect_right(self.starts, m["FileOffset"]) - 1
                reps = [(p["Offset"], p["Length"], p["ReplacementText"], os.path.basename(p["FilePath"])) for p in m["Replacements"]]
                out.setdefault(k, []).append((x["DiagnosticName"].replace("clazy-", "", 1), m["Message"], reps))
        errs = {}
        for g in r.diags:
            if g.sev in ("error", "fatal error"):
                errs.setdefault(bisect.bisect_right(self.first, g.line) - 1 if os.path.basename(g.file) == os.path.basename(self.main) else -1, []).append(g.msg)
        return out, r, errs

    def applied(self, got, chosen):
        """the lines after applying the fix-its of the chosen units' own checks; a unit whose fix-its contradict or leave the line gives None"""
        data = self.text.encode()
        new, odd = list(self.lines), {}
        for k, u in enumerate(self.units):
            if k not in chosen:
                continue
            reps = sorted({p for c, m, ps in got.get(k, []) if c == u["check"] for p in ps})
            if not reps:
                continue
            lo = self.starts[k]
            hi = lo + len(self.lines[k].encode()) + (len(self.units) == 1)   # at the end of its file, too
            bad = [p for p in reps if p[3] != os.path.basename(self.main) or p[0] < lo or p[0] + p[1] > hi]
            if bad:
                odd[k] = "changes something outside of its line: %s" % (bad,)
                continue
            if any(a[0] + a[1] > b[0] or (a[0] == b[0] and a[1] == b[1] == 0) for a, b in zip(reps, reps[1:])):
                odd[k] = "its replacements contradict each other: %s" % (reps,)
                continue
            t = data[lo:hi]
            for off, n, txt, _ in reversed(reps):
                t = t[:off - lo] + txt.encode() + t[off - lo + n:]
            new[k] = t.decode("utf-8", "replace")
        return new, odd
