// the keyword macros live in a file of Qt's name, as some checks ask where a macro was defined
#pragma once
#define QT_ANNOTATE_CLASS(type, ...)
#define QT_ANNOTATE_ACCESS_SPECIFIER(x)
#define QT_ANNOTATE_FUNCTION(x)
#define Q_SIGNALS public QT_ANNOTATE_ACCESS_SPECIFIER(qt_signal)
#define Q_SLOTS QT_ANNOTATE_ACCESS_SPECIFIER(qt_slot)
#ifndef QT_NO_KEYWORDS
#define signals Q_SIGNALS
#define slots Q_SLOTS
#define emit
#define foreach Q_FOREACH
#endif
#define Q_EMIT
#define Q_SIGNAL QT_ANNOTATE_FUNCTION(qt_signal)
#define Q_SLOT QT_ANNOTATE_FUNCTION(qt_slot)
#define Q_INVOKABLE QT_ANNOTATE_FUNCTION(qt_invokable)
#define Q_SCRIPTABLE QT_ANNOTATE_FUNCTION(qt_scriptable)
#define Q_PRIVATE_SLOT(d, signature)
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define Q_ENUM(x)
#define Q_CLASSINFO(a, b)
#define Q_INTERFACES(x)
#define Q_UNUSED(x) (void)x;
#ifndef QT_NO_DEBUG
#define QT_STRINGIFY2(x) #x
#define QT_STRINGIFY(x) QT_STRINGIFY2(x)
#define QLOCATION "\0" __FILE__ ":" QT_STRINGIFY(__LINE__)
#else
#define QLOCATION
#endif
#ifdef QT_NAMESPACE
namespace QT_NAMESPACE { const char *qFlagLocation(const char *method); }
#else
const char *qFlagLocation(const char *method);
#endif
#define SLOT(a) qFlagLocation("1" #a QLOCATION)
#define SIGNAL(a) qFlagLocation("2" #a QLOCATION)
#define METHOD(a) qFlagLocation("0" #a QLOCATION)
