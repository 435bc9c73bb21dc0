"""One-line top-level snippets for every check, on the stub Qt headers.  '@' becomes a unique number.  The key names
the check the snippet was written for; what other checks say about it is part of every observation too.
PP: snippets that act while preprocessing and keep their own line; a trailing newline is added by the writer."""
import clz, triggers

MORE = {
    "connect-by-name": ["class @ : public QObject { Q_OBJECT public Q_SLOTS: void on_foo_bar(); };"],
    "connect-non-signal": ["class @ : public QObject { Q_OBJECT public: void ns(); void g() { QObject::connect(this, &@::ns, this, &QObject::deleteLater); } };"],
    "connect-not-normalized": ["void @(QTimer *t, QObject *o) { QObject::connect(t, SIGNAL(a(const QString &)), o, SLOT(b(QString))); }"],
    "empty-qstringliteral": ['void @() { QString s = QStringLiteral(""); (void)s; }'],
    "fully-qualified-moc-types": ["namespace @n { struct T {}; class @ : public QObject { Q_OBJECT Q_SIGNALS: void s(T); }; }"],
    "lambda-in-connect": ["void @(QObject *o) { int i = 0; QObject::connect(o, &QObject::destroyed, o, [&] { (void)i; }); }"],
    "lambda-unique-connection": ["void @(QObject *o) { QObject::connect(o, &QObject::destroyed, o, [] {}, Qt::UniqueConnection); }"],
    "lowercase-qml-type-name": ['int @() { return qmlRegisterType<int>("a", 1, 0, "lower"); }'],
    "mutable-container-key": ["void @() { QMap<QPointer<QObject>, int> m; (void)m.size(); }"],
    "no-module-include": ["#include <QtCore>"],
    "overloaded-signal": ["class @ : public QObject { Q_OBJECT Q_SIGNALS: void s(int); void s(bool); };"],
    "qenums": ["class @ : public QObject { Q_OBJECT Q_ENUMS(E) public: enum E { A }; };"],
    "qstring-comparison-to-implicit-char": ["bool @(const QString &s) { return s == 65; }"],
    "qt-macros": ["#ifdef Q_OS_NOTHING_@\n#endif"],
    "strict-iterators": ["void @(QMap<int, int> &m) { QMap<int, int>::const_iterator it = m.begin(); (void)it; }"],
    "temporary-iterator": ["QList<int> @g(); void @() { auto it = @g().begin(); (void)it; }"],
    "use-static-qregularexpression": ['bool @(const QString &s) { return s.contains(QRegularExpression(QString("a"))); }'],
    "wrong-qevent-cast": ["int @(QEvent *e) { switch (e->type()) { case QEvent::KeyPress: return static_cast<QMouseEvent *>(e)->x(); default: return 0; } }"],
    "wrong-qglobalstatic": ["Q_GLOBAL_STATIC(int, @)"],
    "writing-to-temporary": ["QList<int> @g(); void @() { @g().append(1); }"],
    "auto-unexpected-qstringbuilder": ['void @(const QString &a) { auto s = a % QLatin1String("b"); (void)s; }'],
    "child-event-qobject-cast": ["class @ : public QObject { Q_OBJECT public: bool event(QEvent *e) override { auto o = qobject_cast<QTimer *>(static_cast<QChildEvent *>(e)->child()); return o || QObject::event(e); } };"],
    "connect-3arg-lambda": ["class @ : public QObject { Q_OBJECT public: int n; void g(QObject *o) { QObject::connect(o, &QObject::destroyed, [this] { n = 1; }); } };", "void @() { QTimer::singleShot(1, [] {}); }"],
    "foreach": ["void @(QList<QString> l) { Q_FOREACH (QString s, l) { (void)s.size(); } }"],
    "incorrect-emit": ["class @ : public QObject { Q_OBJECT public: void g() { sig(); } Q_SIGNALS: void sig(); };", "class @ : public QObject { Q_OBJECT public: void g() { Q_EMIT slt(); } public Q_SLOTS: void slt(); };"],
    "install-event-filter": ["class @ : public QObject { Q_OBJECT public: void g(QObject *o) { installEventFilter(o); } };"],
    "modernize-overloaded-connects": ["void @(QTimer *t, QObject *o) { QObject::connect(t, QOverload<>::of(&QTimer::timeout), o, &QObject::deleteLater); }", "void @(QTimer *t, QObject *o) { QObject::connect(t, static_cast<void (QTimer::*)()>(&QTimer::timeout), o, &QObject::deleteLater); }"],
    "overridden-signal": ["class @a : public QObject { Q_OBJECT Q_SIGNALS: void s(); }; class @ : public @a { Q_OBJECT public: void s(); };"],
    "post-event": ["void @(QObject *o) { QEvent e(QEvent::User); QCoreApplication::postEvent(o, &e); }"],
    "qdeleteall": ["void @(QMap<int, int *> m) { qDeleteAll(m.values()); }"],
    "qhash-namespace": ["namespace @n { struct T {}; } uint qHash(const @n::T &);"],
    "qlatin1string-non-ascii": ['void @() { QLatin1String s("\u00e9"); (void)s; }'],
    "qproperty-without-notify": ["class @ : public QObject { Q_OBJECT Q_PROPERTY(int foo READ foo) public: int foo() const; };"],
    "qstring-left": ["QString @(const QString &s) { return s.left(1); }"],
    "range-loop-detach": ["struct @ { QList<int> m; void g() { for (int i : m) { (void)i; } } };"],
    "range-loop-reference": ["void @(const QList<QString> &l) { for (QString s : l) { (void)s.size(); } }", "void @(QList<QString> &l) { for (const QString s : l) { (void)s.size(); } }"],
    "readlock-detaching": ["struct @ { QMap<int, int> m; QReadWriteLock l; void g() { QReadLocker k(&l); m.begin(); } };"],
    "returning-data-from-temporary": ["const char *@() { QByteArray b; return b.constData(); }"],
    "rule-of-two-soft": ["struct @ { int *m; @(); @(const @ &); }; void @f(@ &a, const @ &b) { a = b; }"],
    "skipped-base-method": ["struct @a { virtual void f(); }; struct @b : @a { void f() override; }; struct @ : @b { void g() { @a::f(); } };"],
    "virtual-signal": ["class @ : public QObject { Q_OBJECT Q_SIGNALS: virtual void s(); };"],
    "function-args-by-value": ["struct @t { int a; }; int @(const @t &t) { return t.a; }"],
    "global-const-char-pointer": ['const char *@ = "x";'],
    "implicit-casts": ["void @h(bool, int *); void @(int *p) { @h(p, p); }"],
    "qstring-allocations": ['bool @(const QString &s) { return s == QString("abc"); }', 'void @(QString &s) { s = QString::fromLatin1("lit"); }'],
    "rule-of-three": ["struct @ { int *m; @(const @ &); };"],
    "static-pmf": ["void @() { static auto p = &QObject::deleteLater; (void)p; }"],
    "virtual-call-ctor": ["struct @ { @() { f(); } virtual void f() = 0; };"],
    "assert-with-side-effects": ["void @(int i) { Q_ASSERT(i++ > 0); }"],
    "compare-member-check": ["struct @ { int a, b; bool operator==(const @ &o) const { return a == o.a; } }; bool @f(const @ &x, const @ &y) { return x == y; }"],
    "container-inside-loop": ["void @() { for (int i = 0; i < 3; ++i) { QList<int> l; l.append(i); } }"],
    "detaching-member": ["struct @ { QList<int> m; int g() { return m.first(); } };", "struct @ { QMap<int, int> m; void g() { m.begin(); } };"],
    "ifndef-define-typo": ["#ifndef AAGUARD_@_X\n#define AAGUARD_@_Y\n#endif"],
    "jni-signatures": ['void @(QAndroidJniObject &o) { o.callMethod("foo", "(Q)V"); }'],
    "modernize-list-initialization": ["void @() { QList<int> l = QList<int>() << 1 << 2; (void)l.size(); }"],
    "qbytearray-conversion-to-c-style": ["void @f(const char *); void @(const QByteArray &b) { @f(b); }"],
    "qproperty-type-mismatch": ["class @ : public QObject { Q_OBJECT Q_PROPERTY(int foo READ foo NOTIFY n) public: double foo() const; Q_SIGNALS: void n(); };"],
    "qrequiredresult-candidates": ["class @ { public: @ trimmed() const; };"],
    "qstring-varargs": ["void @v(int, ...); void @(QString s) { @v(1, s); }"],
    "qt-keywords": ["class @ : public QObject { Q_OBJECT signals: void s(); };", "class @ : public QObject { Q_OBJECT public slots: void s(); };"],
    "sanitize-inline-keyword": ["struct @ { int f() const; }; inline int @::f() const { return 1; }"],
    "thread-with-slots": ["class @ : public QThread { Q_OBJECT public Q_SLOTS: void s() { m = 1; } public: int m; };"],
    "unexpected-flag-enumerator-value": ["enum @ { A@ = 1, B@ = 2, C@ = 4, D@ = 9 };"],
    "unneeded-cast": ["QObject *@(QTimer *t) { return static_cast<QObject *>(t); }"],
    "unused-result-check": ["void @(const QString &s) { s.size(); }"],
    "use-arrow-operator-instead-of-data": ["void @(const QPointer<QObject> &p) { p.data()->deleteLater(); }"],
    "used-qunused-variable": ["int @(int a) { Q_UNUSED(a) return a; }"],
    "qstring-ref": ["int @(const QString &s) { return s.mid(1).toInt(); }"],
    "reserve-candidates": ["void @(const QList<int> &v) { QList<int> l; for (int i : v) { l.append(i); } }"],
    "missing-typeinfo": ["struct @t { int a; }; void @() { QVector<@t> v; (void)v.size(); }"],
}


# the same name defined in different ways: what a check says must go by the definition of its own unit
CLASHING = [("", t) for t in (
    "struct @ { char c[100]; }; int @f(@ p) { return p.c[0]; }",
    "struct @ { char c; }; int @f(@ p) { return p.c; }",
    "struct @ { @(); @(const @ &); ~@(); int c; }; int @f(@ p) { return p.c; }",
    "struct @ { char c; }; int @f(const @ &p) { return p.c; }",
    "struct @ { char c[100]; }; int @f(const @ &p) { return p.c[0]; }",
    "template <typename T> struct @ { T t; char more[64]; }; int @f(@<int[4]> b) { return b.t[0]; }",
    "template <typename T> struct @ { T t; }; int @f(@<int[2]> b) { return b.t[0]; }",
    "struct @ { char c[100]; }; void @f(const QList<@> &l) { for (@ p : l) { (void)p.c; } }",
    "struct @ { char c; }; void @f(const QList<@> &l) { for (@ p : l) { (void)p.c; } }",
    "struct @ { char c; }; void @f(const QList<@> &l) { for (const @ &p : l) { (void)p.c; } }",
    "class @ : public QObject { Q_OBJECT public: void s(); }; void @f(@ *o) { Q_EMIT o->s(); }",
    "class @ : public QObject { Q_OBJECT Q_SIGNALS: void s(); }; void @f(@ *o) { Q_EMIT o->s(); }",
    "class @ : public QObject { Q_OBJECT Q_SIGNALS: void s(); }; void @f(@ *o) { o->s(); }",
    "class @ : public QObject { Q_OBJECT public Q_SLOTS: void s(); }; void @f(@ *o) { o->s(); Q_EMIT o->s(); }",
    "class @ : public QObject { public: void s(); };",
    "class @ : public QObject { Q_OBJECT public: @(); };",
    "class @ : public QObject { Q_OBJECT public: @(QObject *parent = nullptr); };",
    "typedef QMap<int, int> @; void @f(@ m) { (void)m.size(); }",
    "typedef int @; void @f(@ m) { (void)m; }",
    "struct @ { int *p; @(const @ &); };",
    "struct @ { int *p; @(const @ &); @ &operator=(const @ &); ~@(); };",
    "struct @ { int *p; @(const @ &); @ &operator=(const @ &); ~@(); virtual void v(); };",
    "enum @ { A@ = 1, B@ = 2, C@ = 4, D@ = 9 };",
    "enum @ { A@ = 1, B@ = 2, C@ = 4, D@ = 8 };",
    "struct @ { int a; }; void @f() { QVector<@> v; (void)v.size(); }",
    "struct @ { static int s(); }; void @f(@ *o) { (void)o->s(); }",
    "struct @ { QString x() const; }; void @f(const @ &o) { o.x(); }",
    "struct @ { void x() const; }; void @f(const @ &o) { o.x(); }",
    "struct @ { virtual void f(); @() { f(); } };",
    "struct @ { void f(); @() { f(); } };",
    "QList<int> @(); void @f() { for (int i : @()) { (void)i; } }",
    "const QList<int> @(); void @f() { for (int i : @()) { (void)i; } }",
    "const QList<int> &@(); void @f() { for (int i : @()) { (void)i; } auto it = @().begin(); (void)it; }",
    "namespace @ { class QString { public: int size() const; }; } void @f(const @::QString &s) { s.size(); }",
)]


def all_snippets():
    """[(check, text)] in a fixed order"""
    out = []
    for c in sorted(set(triggers.LIVE) | set(MORE)):
        for t in ([triggers.LIVE[c]] if c in triggers.LIVE else []) + MORE.get(c, []):
            out.append((c, t))
    return out


def render(items, first=""):
    """items: [(check, text)]; returns (source, [first line of item k])"""
    s, lines = triggers.PRELUDE + first, []
    for k, (c, t) in enumerate(items):
        lines.append(s.count("\n") + 1)
        s += t.replace("@", ("X%d" if not t.startswith("#") else "%d") % k) + "\n"
    return s, lines
