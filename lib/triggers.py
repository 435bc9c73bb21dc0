"""One-line source snippets, each of which triggers exactly one warning of one check (and nothing else of the set
it is used with).  '@' is replaced by a unique number.  All use the stub Qt headers."""
PRELUDE = "#include <qtstub.h>\n"

T = {
    # check: (level, top-level line)
    "qgetenv": "void f@() { (void)qgetenv(\"A\").isEmpty(); }",
    "virtual-call-ctor": None,
    "qdatetime-utc": "void f@() { (void)QDateTime::currentDateTime().toMSecsSinceEpoch(); }",
    "qcolor-from-literal": "void f@() { QColor c(\"#FF0000\"); (void)c; }",
    "qfileinfo-exists": "bool f@(const QString &s) { return QFileInfo(s).exists(); }",
    "qstring-arg": 'QString f@(const QString &a, const QString &b) { QString s; return s.arg(a).arg(b); }',
    "container-anti-pattern": "int f@(QMap<int, int> &m) { return m.values().size(); }",
    "returning-void-expression": "void g@(); void f@() { return g@(); }",
    "function-args-by-ref": "void f@(QList<int> l) { (void)l.size(); }",
    "raw-environment-function": "void f@(char *s) { putenv(s); }",
    "sanitize-inline-keyword": None,
    "unused-non-trivial-variable": "void f@() { QByteArray unused@; }",
    "qt-keyword-emit": 'class E@ : public QObject { Q_OBJECT Q_SIGNALS: void s(); public: void g() { emit s(); } };',
    "static-pmf": None,
    "isempty-vs-count": "bool f@(const QList<int> &l) { if (l.count()) return 1; return 0; }",
    "tr-non-literal": "QString f@(const char *s) { return QObject::tr(s); }",
    "copyable-polymorphic": "struct P@ { virtual void a(); };",
    "const-signal-or-slot": 'class C@ : public QObject { Q_OBJECT public Q_SLOTS: int s() const; };',
    "missing-qobject-macro": "class M@ : public QObject { int x; };",
    "ctor-missing-parent-argument": "class K@ : public QObject { Q_OBJECT public: K@(); };",
    "use-chrono-in-qtimer": "void f@(QTimer *t) { t->start(100); }",
    "heap-allocated-small-trivial-type": 'struct H@ { int a; }; int f@() { H@ *p = new H@(); return p->a; }',
    "implicit-casts": None,
    "assert-with-side-effects": None,
    "qmap-with-pointer-key": "void f@() { QMap<int *, int> m; (void)m.size(); }",
    "old-style-connect": "void f@(QTimer *t, QObject *o) { QObject::connect(t, SIGNAL(timeout()), o, SLOT(deleteLater())); }",
    "strict-iterators": None,
    "detaching-temporary": "QList<int> g@(); int f@() { return g@().first(); }",
    "lambda-in-connect": None,
    "rule-of-two-soft": None,
    "non-pod-global-static": "static QString s_global@;",
    "range-loop-detach": None,
    "qstring-insensitive-allocation": "bool f@(const QString &s) { return s.toLower().contains(QString()); }",
    "post-event": None,
    "connect-not-normalized": None,
    "base-class-event": "class B@ : public QObject { Q_OBJECT public: explicit B@(QObject *parent = nullptr); bool event(QEvent *) override { return false; } };",
    "writing-to-temporary": None,
    "unneeded-cast": None,
    "qenums": None,
    "wrong-qglobalstatic": None,
    "temporary-iterator": None,
    "mutable-container-key": None,
    "rule-of-three": None,
    "qt6-deprecated-api-fixes": None,
    "signal-with-return-value": "class G@ : public QObject { Q_OBJECT Q_SIGNALS: int s(); };",
    "qhash-with-char-pointer-key": "void f@() { QHash<const char *, int> m; (void)m.size(); }",
    "qstring-varargs": None,
    "qvariant-template-instantiation": "int f@(const QVariant &v) { return v.value<int>(); }",
    "inefficient-qlist-soft": None,
    "overridden-signal": None,
    "ifndef-define-typo": None,
}
LIVE = {k: v for k, v in T.items() if v}


def line(check, n):
    return T[check].replace("@", str(n))


def write_probe(path, checks=None):
    with open(path, "w") as f:
        f.write(PRELUDE)
        for i, c in enumerate(sorted(checks or LIVE)):
            f.write(line(c, i) + "\n")
    return sorted(checks or LIVE)
