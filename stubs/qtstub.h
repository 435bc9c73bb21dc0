// A small model of the Qt API (declarations as in Qt 5.15 / 6), so that framework-level checks run in milliseconds.
#pragma once
#ifndef QT_VERSION_MAJOR_STUB
#define QT_VERSION_MAJOR_STUB 6
#endif
#if QT_VERSION_MAJOR_STUB == 58
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 8
#define QT_VERSION_PATCH 0
#define QT_VERSION_STR "5.8.0"
#elif QT_VERSION_MAJOR_STUB == 5
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 2
#define QT_VERSION_STR "5.15.2"
#else
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 2
#define QT_VERSION_STR "6.4.2"
#endif
#define QT_VERSION_CHECK(a, b, c) ((a << 16) | (b << 8) | (c))
#define QT_VERSION QT_VERSION_CHECK(QT_VERSION_MAJOR, QT_VERSION_MINOR, QT_VERSION_PATCH)
static_assert(QT_VERSION >= 0x050000, "");

#if defined(QT_NAMESPACE)
#define QT_PREPEND_NAMESPACE(name) ::QT_NAMESPACE::name
#define QT_USE_NAMESPACE using namespace ::QT_NAMESPACE;
namespace QT_NAMESPACE {}
#ifndef QT_NO_USING_NAMESPACE
QT_USE_NAMESPACE
#endif
#define QT_BEGIN_NAMESPACE namespace QT_NAMESPACE {
#define QT_END_NAMESPACE }
#else
#define QT_PREPEND_NAMESPACE(name) ::name
#define QT_USE_NAMESPACE
#define QT_BEGIN_NAMESPACE
#define QT_END_NAMESPACE
#endif

#include "qobjectdefs.h"
#define Q_ASSERT(cond) ((cond) ? static_cast<void>(0) : qt_assert(#cond, __FILE__, __LINE__))
void qt_assert(const char *, const char *, int);

QT_BEGIN_NAMESPACE
class QObject; class QThread; class QRegularExpression; class QRegularExpressionMatch;
typedef unsigned int uint;
typedef unsigned short ushort;
typedef long long qint64;
typedef long long qsizetype;
typedef double qreal;

struct QMetaObject {
    struct Connection { operator bool() const; };
    template <class... A> static bool invokeMethod(QObject *, const char *, A...);
};
namespace Qt { enum ConnectionType { AutoConnection, DirectConnection, QueuedConnection, BlockingQueuedConnection, UniqueConnection = 0x80 };
enum Initialization { Uninitialized }; enum CaseSensitivity { CaseInsensitive, CaseSensitive }; }

class QByteArray {
public:
    QByteArray(); QByteArray(const char *, int size = -1); QByteArray(const QByteArray &); ~QByteArray();
    QByteArray &operator=(const QByteArray &);
    char *data(); const char *data() const; const char *constData() const; operator const char *() const;
    bool isEmpty() const; int size() const; int count() const; int toInt(bool *ok = nullptr, int base = 10) const;
    char *begin(); char *end(); const char *begin() const; const char *end() const;
};
class QChar { public: QChar(char); QChar(); ushort u; };
class QLatin1String { public: explicit QLatin1String(const char *); QLatin1String(); const char *latin1() const; };
class QString {
public:
    QString(); QString(const char *); QString(QLatin1String); QString(const QString &); QString(QString &&) noexcept; QString(QChar); ~QString();
    QString &operator=(const QString &); QString &operator=(QLatin1String); QString &operator=(const char *);
    static QString fromLatin1(const char *, int size = -1); static QString fromUtf8(const char *, int size = -1);
    static QString number(int, int base = 10);
    bool isEmpty() const; int size() const; int count() const; int length() const;
    QString mid(int, int = -1) const; QString left(int) const; QString right(int) const; QString trimmed() const; QString toLower() const;
    QString arg(const QString &, int fieldWidth = 0, QChar fillChar = QChar(' ')) const;
    QString arg(int, int fieldWidth = 0, int base = 10, QChar fillChar = QChar(' ')) const;
    template <class... A> QString arg(const QString &, const QString &, const A &...) const;
    int toInt(bool *ok = nullptr, int base = 10) const; bool contains(const QString &) const; bool contains(const QRegularExpression &) const; bool startsWith(const QString &) const;
    QByteArray toUtf8() const; QByteArray toLatin1() const;
    QString &append(const QString &); QString &operator+=(const QString &); QString &replace(const QString &, const QString &);
    QChar *begin(); QChar *end(); const QChar *begin() const; const QChar *end() const; const QChar *cbegin() const;
    QChar &operator[](int); const QChar operator[](int) const; QChar *data(); const QChar *constData() const;
};
bool operator==(const QString &, const QString &); bool operator<(const QString &, const QString &); bool operator==(const QString &, const char *);
QString operator+(const QString &, const QString &);
namespace QtPrivate { QString qMakeStringPrivate(const char16_t *); }
#if QT_VERSION_MAJOR_STUB != 6
struct QStringDataStub { int size; const char16_t *p; };
#define QStringLiteral(str) ([]() noexcept -> QString { static const QStringDataStub qstring_literal = { int(sizeof(u"" str) / 2 - 1), u"" str }; return QString(QLatin1String(reinterpret_cast<const char *>(qstring_literal.p))); }())
#else
#define QStringLiteral(str) (QString(QtPrivate::qMakeStringPrivate(u"" str)))
#endif
template <class A, class B> class QStringBuilder { public: QStringBuilder(const A &, const B &); operator QString() const; };
QStringBuilder<QString, QLatin1String> operator%(const QString &, const QLatin1String &);
bool operator==(const QString &, QChar);
#define QLatin1Literal QLatin1String

template <typename T> class QList {
public:
    typedef T *iterator; typedef const T *const_iterator; typedef T value_type;
    QList(); QList(const QList &); QList(T, T); ~QList(); QList &operator=(const QList &);
    iterator begin(); iterator end(); const_iterator begin() const; const_iterator end() const; const_iterator cbegin() const; const_iterator cend() const;
    const_iterator constBegin() const; const_iterator constEnd() const;
    T &operator[](int); const T &operator[](int) const; const T &at(int) const; T &first(); const T &first() const; const T &constFirst() const;
    T &last(); const T &last() const; int size() const; int count() const; int count(const T &) const; int length() const; bool isEmpty() const; void append(const T &); void push_back(const T &);
    QList &operator<<(const T &); void reserve(int); bool contains(const T &) const; T takeAt(int); QList mid(int) const; iterator find(const T &);
    bool removeOne(const T &); T value(int) const; void clear(); T *data(); const T *constData() const;
};
template <typename T> class QVector : public QList<T> { public: QVector(); QVector(int); };
template <typename T> class QSet { public: typedef const T *iterator; typedef const T *const_iterator; QSet(); QSet(const QSet &); ~QSet(); iterator begin(); iterator end(); const_iterator begin() const; const_iterator end() const; void insert(const T &); bool contains(const T &) const; int size() const; bool isEmpty() const; bool remove(const T &); QList<T> values() const; };
template <typename K, typename V> class QMap { public: typedef V *iterator; typedef const V *const_iterator; QMap(); QMap(const QMap &); ~QMap(); iterator begin(); iterator end(); const_iterator begin() const; const_iterator end() const; const_iterator constBegin() const; const_iterator constEnd() const; iterator insert(const K &, const V &); QList<K> keys() const; QList<V> values() const; V value(const K &) const; V &operator[](const K &); V operator[](const K &) const; bool contains(const K &) const; int size() const; iterator find(const K &); const_iterator find(const K &) const; const_iterator constFind(const K &) const; };
template <typename K, typename V> class QHash { public: typedef V *iterator; typedef const V *const_iterator; QHash(); QHash(const QHash &); ~QHash(); iterator begin(); iterator end(); const_iterator begin() const; const_iterator end() const; iterator insert(const K &, const V &); QList<K> keys() const; QList<V> values() const; V value(const K &) const; V &operator[](const K &); bool contains(const K &) const; int size() const; iterator find(const K &); const_iterator find(const K &) const; const_iterator constFind(const K &) const; };
typedef QList<QString> QStringList;

class QEvent { public: enum Type { None, Timer, MouseButtonPress = 2, KeyPress = 6, ChildAdded = 68, User = 1000 }; explicit QEvent(Type); virtual ~QEvent(); Type type() const; };
class QKeyEvent : public QEvent { public: QKeyEvent(); int key() const; };
class QMouseEvent : public QEvent { public: QMouseEvent(); int x() const; };
class QChildEvent : public QEvent { public: QChildEvent(); QObject *child() const; };
class QObject {
public:
    void installEventFilter(QObject *);
    explicit QObject(QObject *parent = nullptr); virtual ~QObject();
    virtual bool event(QEvent *); virtual bool eventFilter(QObject *, QEvent *);
    QObject *parent() const; void setObjectName(const QString &); QString objectName() const; void deleteLater(); QObject *sender() const; void moveToThread(QThread *);
    static QMetaObject::Connection connect(const QObject *sender, const char *signal, const QObject *receiver, const char *member, Qt::ConnectionType = Qt::AutoConnection);
    QMetaObject::Connection connect(const QObject *sender, const char *signal, const char *member, Qt::ConnectionType = Qt::AutoConnection) const;
    template <typename F1, typename F2> static QMetaObject::Connection connect(const QObject *sender, F1 signal, const QObject *receiver, F2 slot, Qt::ConnectionType = Qt::AutoConnection) { return QMetaObject::Connection(); }
    template <typename F1, typename F2> static QMetaObject::Connection connect(const QObject *sender, F1 signal, F2 slot) { return QMetaObject::Connection(); }
    static bool disconnect(const QObject *sender, const char *signal, const QObject *receiver, const char *member);
    static QString tr(const char *, const char * = nullptr, int n = -1);
    template <class T> QList<T> findChildren() const;
Q_SIGNALS:
    void destroyed(QObject * = nullptr); void objectNameChanged(const QString &);
private:
    QObject(const QObject &) = delete; QObject &operator=(const QObject &) = delete;
};
#define Q_OBJECT public: static const QMetaObject staticMetaObject; virtual const QMetaObject *metaObject() const; virtual int qt_metacall(int, int, void **); private:
#define Q_GADGET public: static const QMetaObject staticMetaObject; void qt_check_for_QGADGET_macro(); private:
#define Q_DISABLE_COPY(C) C(const C &) = delete; C &operator=(const C &) = delete;
template <class T> inline T qobject_cast(QObject *o) { return dynamic_cast<T>(o); }
template <class T> inline const T &qAsConst(T &t) { return t; }
class QThread : public QObject { public: explicit QThread(QObject *parent = nullptr); static QThread *currentThread(); void start(); protected: virtual void run(); };
class QTimer : public QObject { public: explicit QTimer(QObject *parent = nullptr); void setInterval(int); void start(int); void start(); static void singleShot(int, QObject *, const char *); template <class F> static void singleShot(int interval, F slot) {} Q_SIGNALS: void timeout(); };
class QVariant { public: QVariant(); QVariant(int); QVariant(const QString &); ~QVariant(); template <class T> T value() const; int toInt() const; QString toString() const; template <class T> static QVariant fromValue(const T &); };
class QDateTime { public: QDateTime(); ~QDateTime(); static QDateTime currentDateTime(); static QDateTime currentDateTimeUtc(); QDateTime toUTC() const; qint64 toMSecsSinceEpoch() const; uint toTime_t() const; };
class QFileInfo { public: QFileInfo(const QString &); ~QFileInfo(); bool exists() const; static bool exists(const QString &); };
class QColor { public: QColor(int r, int g, int b); QColor(const char *); QColor(const QString &); };
class QUrl { public: QUrl(); QUrl(const QString &); ~QUrl(); static QUrl fromLocalFile(const QString &); };
class QMutex { public: QMutex(); void lock(); void unlock(); };
class QMutexLocker { public: explicit QMutexLocker(QMutex *); ~QMutexLocker(); };
class QReadWriteLock { public: void lockForRead(); void unlock(); };
class QReadLocker { public: QReadLocker(QReadWriteLock *); ~QReadLocker(); void unlock(); };
class QRegularExpressionMatch { public: ~QRegularExpressionMatch(); };
class QRegularExpression { public: QRegularExpression(); QRegularExpression(const QString &, int options = 0); ~QRegularExpression(); QRegularExpressionMatch match(const QString &) const; };
template <class T> class QSharedPointer { public: QSharedPointer(T *); T *operator->() const; T *data() const; };
template <class T> class QPointer { public: QPointer(T *); T *operator->() const; T *data() const; };
template <class T> class QScopedPointer { public: QScopedPointer(T *); T *operator->() const; T *data() const; };
class QDebug { public: ~QDebug(); QDebug &operator<<(const char *); QDebug &operator<<(int); QDebug &operator<<(const QString &); };
QDebug qDebug();
class QCoreApplication : public QObject { public: static void postEvent(QObject *, QEvent *); static bool sendEvent(QObject *, QEvent *); };
template <class T> int qmlRegisterType(const char *, int, int, const char *);
template <class T> inline void qDeleteAll(const T &) {}
class QAndroidJniObject { public: QAndroidJniObject(const char *, const char *, ...); void callMethod(const char *, const char *, ...) const; static void callStaticMethod(const char *, const char *, const char *, ...); };
template <class T> class QGlobalStatic { public: QGlobalStatic(T *); };
#define Q_GLOBAL_STATIC(TYPE, NAME) static QGlobalStatic<TYPE> NAME(nullptr);
template <class T> class QTypeInfo { };
template <class... A> struct QNonConstOverload { template <class R, class T> constexpr auto operator()(R (T::*p)(A...)) const -> decltype(p) { return p; } template <class R, class T> static constexpr auto of(R (T::*p)(A...)) -> decltype(p) { return p; } };
template <class... A> struct QOverload : QNonConstOverload<A...> { using QNonConstOverload<A...>::of; using QNonConstOverload<A...>::operator(); template <class R> constexpr auto operator()(R (*p)(A...)) const -> decltype(p) { return p; } template <class R> static constexpr auto of(R (*p)(A...)) -> decltype(p) { return p; } };
template <class... A> constexpr inline QOverload<A...> qOverload = {};
QByteArray qgetenv(const char *); bool qEnvironmentVariableIsSet(const char *); bool qEnvironmentVariableIsEmpty(const char *); int qEnvironmentVariableIntValue(const char *, bool *ok = nullptr); bool qputenv(const char *, const QByteArray &);
template <class T> struct QFlags { QFlags(T); T e; };
template <typename T> class QForeachContainer { public: QForeachContainer(const T &); T c; typename T::const_iterator i, e; int control; };
template <typename T> struct QForeachType { typedef T type; }; template <typename T> struct QForeachType<T &> { typedef T type; }; template <typename T> struct QForeachType<const T> { typedef T type; }; template <typename T> struct QForeachType<const T &> { typedef T type; };
template <typename T> QForeachContainer<T> qMakeForeachContainer(const T &t);
#define Q_FOREACH(variable, container) for (QForeachContainer<typename QForeachType<decltype(container)>::type> _container_((container)); _container_.control && _container_.i != _container_.e; ++_container_.i, _container_.control ^= 1) for (variable = *_container_.i; _container_.control; _container_.control = 0)
QT_END_NAMESPACE
extern "C" { char *getenv(const char *); int putenv(char *); int setenv(const char *, const char *, int); }
