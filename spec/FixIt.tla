------------------------------- MODULE FixIt -------------------------------
(***************************************************************************)
(* C17.  A unit is one line of code written for one check: its text, the   *)
(* texts that applying the check's fix-it may leave, and whether there     *)
(* has to be a fix-it.  Its life: it is written, the run proposes a        *)
(* fix-it or not, the fix-it is applied, the result is compiled and run    *)
(* again.  The rules below are rewriting rules over a grammar of objects   *)
(* and contexts; the units are what the grammar derives.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt, TLC, Json, IOUtils

U(c, q, b, a, m) == [check |-> c, qt |-> q, text |-> b, after |-> a, must |-> m]
Both == {5, 6}

(* contexts of an expression *)
ValCtx == { <<"void u@() { (void)(", "); }", TRUE>>,
            <<"void u@() { auto r = ", "; (void)r; }", TRUE>>,
            <<"void u@() { use(", ", 1); }", TRUE>>,
            <<"void u@() { [] { (void)", "; }(); }", TRUE>>,
            <<"void u@() { if (gb) (void)(", "); else (void)0; }", TRUE>>,
            <<"template <class T> void u@(T) { (void)(", "); } template void u@<int>(int); template void u@<char>(char);", FALSE>>,
            <<"void u@() { ID((void)(", ")); }", FALSE>>,
            <<"void u@() { (void)(ID(", ")); }", FALSE>>,
            <<"void u@() { use(TWICE(", "), 1); }", FALSE>> }
BoolCtx == { <<"void u@() { if (", ") {} }", TRUE>>,
             <<"void u@() { if (gb && ", ") {} }", TRUE>>,
             <<"void u@() { while (", " || gb) break; }", TRUE>>,
             <<"bool u@() { return ", "; }", TRUE>>,
             <<"void u@() { use(", " ? 1 : 2, 1); }", TRUE>>,
             <<"void u@() { bool r = ", "; (void)r; }", TRUE>>,
             <<"void u@() { ID(if (", ") {}) }", FALSE>>,
             <<"void u@() { if (ID(", ")) {} }", FALSE>> }
(* a macro that is nothing but its argument may go, when all of it is replaced *)
Wrapped == [x \in {"void u@() { (void)(ID(", "void u@() { if (ID("} |-> IF x = "void u@() { (void)(ID(" THEN <<"void u@() { (void)(", "); }">> ELSE <<"void u@() { if (", ") {} }">>]
In(x, A) == {x[1] \o a \o x[2] : a \in A} \cup (IF x[1] \in DOMAIN Wrapped THEN {Wrapped[x[1]][1] \o a \o Wrapped[x[1]][2] : a \in A} ELSE {})
Val(c, q, b, A, m) == {U(c, q, x[1] \o b \o x[2], In(x, A), m /\ x[3]) : x \in ValCtx}
Bool(c, q, b, A, m) == {U(c, q, x[1] \o b \o x[2], In(x, A), m /\ x[3]) : x \in BoolCtx}
Line(c, q, b, a, m) == {U(c, q, b, {a}, m)}
Never(c, q, b) == {U(c, q, b, {}, FALSE)}     \* there is nothing to fix, or nothing that is right
May(c, q, b) == {U(c, q, b, {"?"}, FALSE)}    \* whatever it gives has to compile
(* an object: its text and its accessor; the texts of the same object; whether a check has to see through it *)
Lists == { <<"gl", ".", {"gl"}, TRUE>>, <<"gs.l", ".", {"gs.l"}, TRUE>>, <<"ps->l", ".", {"ps->l"}, TRUE>>, <<"pl", "->", {"pl"}, TRUE>>, <<"rl()", ".", {"rl()"}, TRUE>>,
           <<"(gl)", ".", {"gl", "(gl)"}, FALSE>>, <<"(*pl)", ".", {"(*pl)"}, FALSE>>, <<"(gb ? gl : gm)", ".", {"(gb ? gl : gm)"}, FALSE>>, <<"pf()", "->", {"pf()"}, FALSE>>,
           <<"(gb ? pl : pl)", "->", {"(gb ? pl : pl)"}, FALSE>>, <<"static_cast<QList<int> &>(gl)", ".", {"static_cast<QList<int> &>(gl)"}, FALSE>>, <<"gll[0]", ".", {"gll[0]"}, FALSE>>,
           <<"gl ", ". ", {"gl ", "gl"}, FALSE>>, <<"LMAC", ".", {"LMAC"}, FALSE>>, <<"(gl = gm)", ".", {"(gl = gm)"}, FALSE>> }
Temps == { <<"fl()", ".", {"fl()"}, TRUE>>, <<"gs.fl()", ".", {"gs.fl()"}, TRUE>>, <<"ps->fl()", ".", {"ps->fl()"}, TRUE>>, <<"mk(1, 2)", ".", {"mk(1, 2)"}, TRUE>>, <<"S::sl()", ".", {"S::sl()"}, TRUE>>,
           <<"(fl())", ".", {"fl()", "(fl())"}, FALSE>>, <<"(gl + gm)", ".", {"(gl + gm)"}, FALSE>>, <<"mk(1, fl().size())", ".", {"mk(1, fl().size())"}, FALSE>> }

Args == { <<"\"X\"", TRUE>>, <<"gcc", TRUE>>, <<"gba.constData()", TRUE>>, <<"gb ? \"a\" : \"b\"", TRUE>>, <<"CMAC", FALSE>>, <<"fcs(1, 2)", TRUE>>, <<"(gcc)", TRUE>>, <<"\"a\" \"b\"", TRUE>>, <<"gcc + 1", TRUE>>, <<"R\"(X)\"", TRUE>> }
QGetenv == UNION { Bool("qgetenv", Both, "qgetenv(" \o a[1] \o ").isEmpty()", {"qEnvironmentVariableIsEmpty(" \o a[1] \o ")"}, a[2]) : a \in Args }
   \cup UNION { Val("qgetenv", Both, "qgetenv(" \o a[1] \o ").toInt()", {"qEnvironmentVariableIntValue(" \o a[1] \o ")"}, a[2]) : a \in Args }
   \cup UNION { Val("qgetenv", Both, "qgetenv(" \o a[1] \o ").toInt(&gb, 0)", {"qEnvironmentVariableIntValue(" \o a[1] \o ", &gb)"}, a[2]) : a \in Args }
   \cup UNION { Val("qgetenv", Both, "qgetenv(\"X\").toInt(" \o a[1] \o ")", {"qEnvironmentVariableIntValue(\"X\"" \o a[2] \o ")"}, TRUE)
              : a \in {<<"nullptr", "">>, <<"&gb", ", &gb">>, <<"nullptr, 0", "">>, <<"pb ? pb : &gb", ", pb ? pb : &gb">>, <<"pb", ", pb">>, <<"(pb)", ", (pb)">>, <<"pb + 1", ", pb + 1">>, <<"static_cast<bool *>(pb)", ", static_cast<bool *>(pb)">>, <<"(bool *)pb", ", (bool *)pb">>, <<"&pb[1]", ", &pb[1]">>, <<"ID(pb)", ", ID(pb)">>} }
   \cup UNION { Never("qgetenv", Both, "void u@() { (void)qgetenv(\"X\")." \o a \o "; }") : a \in {"toInt(nullptr, 8)", "toInt(&gb, gi)", "size()", "toUpper().isEmpty()", "toLongLong()"} }
   \cup Bool("qgetenv", Both, "qgetenv(\"X\").isNull()", {"!qEnvironmentVariableIsSet(\"X\")"}, TRUE)

FArgs == { <<"gstr", TRUE>>, <<"gs.str", TRUE>>, <<"fstr()", TRUE>>, <<"gstr + gstr", TRUE>>, <<"(gstr)", TRUE>>, <<"gb ? gstr : gstr2", TRUE>>, <<"QString(gstr)", TRUE>>, <<"QStringLiteral(\"x\")", FALSE>>, <<"SMAC", FALSE>>, <<"fstr2(gstr, 1)", TRUE>>, <<"*pstr", TRUE>>, <<"gstr.mid(1)", TRUE>> }
QFileInfoExists == UNION { Val("qfileinfo-exists", Both, "QFileInfo(" \o a[1] \o ").exists()", {"QFileInfo::exists(" \o a[1] \o ")"}, a[2]) : a \in FArgs }
   \cup UNION { Bool("qfileinfo-exists", Both, "QFileInfo(" \o a[1] \o ").exists()", {"QFileInfo::exists(" \o a[1] \o ")"}, a[2]) : a \in FArgs }
   \cup UNION { Never("qfileinfo-exists", Both, "void u@() { (void)" \o a \o ".exists(); }")
              : a \in {"gfi", "finfo(QString(gstr))", "finfo(gstr)", "QFileInfo(gdir, gstr)", "QFileInfo(gfile)", "QFileInfo(gfi)", "pfi(QString(gstr))[0]", "QDir(gstr)", "finfo(QString(gstr), QFileInfo(gstr))"} }
   \cup UNION { Never("qfileinfo-exists", Both, "void u@() { (void)" \o a \o "->exists(); }") : a \in {"pfi(gstr)", "pfi(QString(gstr))", "(&gfi)"} }

DtClass == { <<"QDateTime", {"QDateTime"}, TRUE>>, <<"::QDateTime", {"::QDateTime"}, FALSE>>, <<"DTAlias", {"DTAlias"}, FALSE>>, <<"NsAlias::DT2", {"NsAlias::DT2"}, FALSE>> }
DtTo == { <<"toUTC()", "currentDateTimeUtc()", Both>>, <<"toMSecsSinceEpoch()", "currentMSecsSinceEpoch()", Both>>, <<"toSecsSinceEpoch()", "currentSecsSinceEpoch()", Both>>, <<"toTime_t()", "currentSecsSinceEpoch()", {5}>> }
QDateTimeUtc == UNION { Val("qdatetime-utc", d[3], p[1] \o "::" \o f \o "()." \o d[1], {x \o "::" \o d[2] : x \in p[2]}, p[3]) : p \in DtClass, d \in DtTo, f \in {"currentDateTime", "currentDateTimeUtc"} }
   \cup UNION { Val("qdatetime-utc", Both, x[1], {x[2]}, FALSE)
              : x \in {<<"(QDateTime::currentDateTime()).toUTC()", "QDateTime::currentDateTimeUtc()">>, <<"(QDateTime::currentDateTime().toUTC())", "(QDateTime::currentDateTimeUtc())">>,
                       <<"QDateTime :: currentDateTime ( ) . toUTC ( )", "QDateTime :: currentDateTimeUtc()">>, <<"gdt.currentDateTime().toUTC()", "gdt.currentDateTimeUtc()">>,
                       <<"pdt->currentDateTimeUtc().toUTC()", "pdt->currentDateTimeUtc()">>, <<"QDateTime().currentDateTime().toUTC()", "QDateTime().currentDateTimeUtc()">>} }
   \cup UNION { Never("qdatetime-utc", Both, "void u@() { (void)" \o a \o "; }") : a \in {"gdt.toUTC()", "QDateTime::currentDateTime().addDays(1).toUTC()", "QDateTime::currentDateTime().toLocalTime()"} }

Hex == { <<"f00", "0xff0000", TRUE>>, <<"123456", "0x123456", TRUE>>, <<"000", "qRgb(0, 0, 0)", TRUE>>, <<"0a0B0c", "0x0a0B0c", TRUE>>, <<"000000", "qRgb(0, 0, 0)", TRUE>>, <<"00000f", "0x00000f", TRUE>>, <<"a0b", "0xaa00bb", TRUE>> }
QColor == UNION { Val("qcolor-from-literal", Both, "QColor(\"#" \o h[1] \o "\")", {"QColor(" \o h[2] \o ")"}, TRUE) : h \in Hex }
   \cup Val("qcolor-from-literal", Both, "QColor(\"#80112233\")", {"QColor(0x11, 0x22, 0x33, 0x80)"}, TRUE)
   \cup Val("qcolor-from-literal", Both, "QColor(\"#00ff0001\")", {"QColor(0xff, 0, 0x01, 0)", "QColor(0xff, 0x00, 0x01, 0x00)"}, TRUE)
   \cup Line("qcolor-from-literal", Both, "void u@() { QColor c(\"#112233\"); use(c, 1); }", "void u@() { QColor c(0x112233); use(c, 1); }", TRUE)
   \cup UNION { May("qcolor-from-literal", Both, "void u@() { " \o a \o " }")
              : a \in {"fcol(\"#112233\");", "fcol(\"#80112233\");", "QColor c = \"#112233\"; use(c, 1);", "QColor c = \"#80112233\"; use(c, 1);", "QColor c{\"#112233\"}; use(c, 1);", "QColor c{\"#80112233\"}; use(c, 1);",
                       "use(QColor(\"#11\" \"2233\"), 1);", "use(QColor(R\"(#112233)\"), 1);", "ID(QColor c(\"#112233\"); use(c, 1);)", "use(QColor(COLMAC), 1);", "gs.col = \"#112233\";", "gs.col = \"#80112233\";",
                       "QList<QColor> l{\"#112233\", \"#445566\"}; use(l, 1);", "QList<QColor> l{\"#80112233\"}; use(l, 1);", "use(gb ? QColor(\"#123\") : QColor(\"#80112233\"), 1);", "fcol(gb ? \"#112233\" : \"#445566\");"} }
   \cup UNION { Never("qcolor-from-literal", Both, "void u@() { use(QColor(" \o a \o "), 1); }") : a \in {"\"red\"", "\"#12\"", "\"#12345g\"", "\"#111222333\"", "\"#111122223333\"", "gstr", "0x112233"} }

PtrObjs == { <<"gp", ".", {"gp->"}, TRUE>>, <<"gs.p", ".", {"gs.p->"}, TRUE>>, <<"ps->p", ".", {"ps->p->"}, TRUE>>, <<"fp()", ".", {"fp()->"}, FALSE>>, <<"gsp", ".", {"gsp->"}, TRUE>>, <<"gscp", ".", {"gscp->"}, TRUE>>,
             <<"gvp[0]", ".", {"gvp[0]->"}, FALSE>>, <<"gs.fp(1)", ".", {"gs.fp(1)->"}, FALSE>>, <<"(gp)", ".", {"(gp)->"}, TRUE>>, <<"(*pgp)", ".", {"(*pgp)->"}, TRUE>>,
             <<"pgp", "->", {"(*pgp)->"}, FALSE>>, <<"gs.pgp", "->", {"(*gs.pgp)->"}, FALSE>>, <<"ps->pgp", "->", {"(*ps->pgp)->"}, FALSE>>, <<"gp ", " . ", {"gp ->", "gp->", "gp  ->"}, FALSE>>, <<"gp/*.*/", ".", {"gp/*.*/->"}, FALSE>>, <<"gp", "./*.*/", {"gp->"}, FALSE>> }
Meth == {"objectName()", "parent()->objectName()", "metaObject()->className()"}
UseArrow == UNION { Val("use-arrow-operator-instead-of-data", Both, o[1] \o o[2] \o "data()->" \o m, {a \o m : a \in o[3]}, o[4]) : o \in PtrObjs, m \in Meth }
   \cup UNION { Val("use-arrow-operator-instead-of-data", Both, b, {a}, FALSE)
              : <<b, a>> \in {<<"gp.data( )->objectName()", "gp->objectName()">>, <<"gp.data() -> objectName()", "gp -> objectName()">>, <<"(gp.data())->objectName()", "(gp)->objectName()">>, <<"(*gp.data()).objectName()", "(*gp).objectName()">>} }
   \cup UNION { Never("use-arrow-operator-instead-of-data", Both, "void u@() { " \o a \o " }")
              : a \in {"use(gp.data(), 1);", "QObject *o = gp.data(); (void)o;", "static_cast<QTimer *>(gp.data())->interval();", "qobject_cast<QTimer *>(gp.data())->start();", "fpo(gp.data())->objectName();"} }

CntObjs == Lists \cup Temps
IsEmptyVsCount == UNION { Bool("isempty-vs-count", Both, o[1] \o o[2] \o m, {"!" \o t \o o[2] \o "isEmpty()" : t \in o[3]}, o[4]) : o \in CntObjs, m \in {"size()", "count()"} }
   \cup UNION { Bool("isempty-vs-count", Both, "!" \o o[1] \o o[2] \o "length()", {t \o o[2] \o "isEmpty()" : t \in o[3]}, o[4]) : o \in CntObjs }
   \cup UNION { Bool("isempty-vs-count", Both, "(" \o o[1] \o o[2] \o "size() " \o r[1] \o ")", {"(" \o r[2] \o t \o o[2] \o "isEmpty()" \o ")" : t \in o[3]}, FALSE)
              : o \in CntObjs, r \in {<<"== 0", "">>, <<"> 0", "!">>, <<"< 1", "">>} }
   \cup UNION { Line("isempty-vs-count", Both, "void u@() { if (" \o o[1] \o o[2] \o "size() " \o r[1] \o ") {} }", "void u@() { if (" \o r[2] \o o[1] \o o[2] \o "isEmpty()) {} }", TRUE)
              : o \in {x \in Temps : x[4]}, r \in {<<"== 0", "">>, <<"> 0", "!">>, <<"< 1", "">>} }
   \cup UNION { Bool("isempty-vs-count", Both, o \o "count(" \o k \o ")", {o \o "contains(" \o k \o ")"}, TRUE) : o \in {"gmap.", "ps->map.", "pmap->", "ghash.", "gmm.", "fmap()."}, k \in {"1", "gi + 1", "fcs(1, 2)[0]"} }
   \cup UNION { Bool("isempty-vs-count", Both, o \o "count(1, 2)", {o \o "contains(1, 2)"}, TRUE) : o \in {"gmm.", "(*pmm).", "pmm->"} }
   \cup UNION { Bool("isempty-vs-count", Both, o \o "size()", {"!" \o o \o "isEmpty()"}, TRUE) : o \in {"gmap.", "ghash.", "gset.", "gv.", "gba.", "gstr."} }
   \cup UNION { May("isempty-vs-count", Both, "struct u@ : QList<int> { bool e() { return " \o a \o "; } };") : a \in {"size()", "!size()", "this->size()", "!count()", "QList<int>::size()", "size() == 0"} }
   \cup UNION { Never("isempty-vs-count", Both, "void u@() { if (" \o a \o ") {} }") : a \in {"fl().size() == 1", "fl().size() > 1", "fl().size() < 2", "0 == 1", "gl.size() == gm.size()"} }
   \cup UNION { May("isempty-vs-count", Both, "void u@() { bool r = " \o a \o "; (void)r; }") : a \in {"0 == fl().size()", "!(gl.size())", "!!gl.size()", "bool(gl.size())", "static_cast<bool>(gl.size())", "(bool)gl.size()", "!(fl().size() > 0)", "gl.size() ? 1 : 0", "gl.size() && gm.size()", "!gl.size() == gb"} }

BaObjs == { <<"gba", {"gba.constData()"}, TRUE>>, <<"gs.ba", {"gs.ba.constData()"}, TRUE>>, <<"ps->ba", {"ps->ba.constData()"}, TRUE>>, <<"fba()", {"fba().constData()"}, TRUE>>, <<"(gba)", {"(gba).constData()"}, TRUE>>,
            <<"gstr.toUtf8()", {"gstr.toUtf8().constData()"}, TRUE>>, <<"*pba", {"(*pba).constData()", "pba->constData()"}, FALSE>>, <<"gb ? gba : gba2", {"(gb ? gba : gba2).constData()"}, FALSE>>, <<"gba = gba2", {"(gba = gba2).constData()"}, FALSE>>,
            <<"(gba + gba2)", {"QByteArray{(gba + gba2)}.constData()", "QByteArray(gba + gba2).constData()"}, FALSE>>, <<"gba + gba2", {"QByteArray{gba + gba2}.constData()", "QByteArray(gba + gba2).constData()"}, FALSE>>, <<"gvb[0]", {"gvb[0].constData()"}, TRUE>>,
            <<"QByteArray(\"x\") + fba()", {"QByteArray{QByteArray(\"x\") + fba()}.constData()"}, FALSE>>, <<"QByteArrayLiteral(\"x\") + fba()", {"QByteArray{QByteArrayLiteral(\"x\") + fba()}.constData()"}, FALSE>>, <<"QByteArray{\"x\"}.append(fcs(1, 2))", {"QByteArray{\"x\"}.append(fcs(1, 2)).constData()"}, FALSE>>, <<"gba += gba2", {"(gba += gba2).constData()"}, FALSE>>, <<"BAMAC", {"BAMAC.constData()"}, FALSE>>, <<"QByteArray(\"x\")", {"\"x\"", "QByteArray(\"x\").constData()"}, FALSE>>, <<"QByteArray{\"x\"}", {"\"x\"", "QByteArray{\"x\"}.constData()"}, FALSE>>, <<"QByteArray(gcc)", {"QByteArray(gcc).constData()"}, FALSE>>, <<"QByteArray()", {"QByteArray().constData()"}, FALSE>>, <<"QByteArrayLiteral(\"x\")", {"\"x\"", "QByteArrayLiteral(\"x\").constData()"}, FALSE>> }
BaCtx == {  <<"void u@() { fcc(", "); }", TRUE>>, <<"void u@() { const char *c = ", "; (void)c; }", TRUE>>, <<"void u@() { fcc2(1, ", ");  }", TRUE>>, <<"const char *u@() { return ", "; }", TRUE>>, <<"void u@() { ID(fcc(", ")); }", FALSE>>, <<"void u@() { fcc(ID(", ")); }", FALSE>>, <<"void u@() { const char *c; c = ", "; (void)c; }", TRUE>> }
QByteArrayConv == UNION { {U("qbytearray-conversion-to-c-style", Both, x[1] \o o[1] \o x[2], {x[1] \o a \o x[2] : a \in o[2]} \cup (IF x[1] = "void u@() { fcc(ID(" THEN {"?"} ELSE {}), o[3] /\ x[3]) : x \in BaCtx} : o \in BaObjs }

DetMeth == { <<"first()", "constFirst()">>, <<"last()", "constLast()">>, <<"begin()", "cbegin()">>, <<"end()", "cend()">> }
(* ListBegin: the const counterpart may be spelled either way *)
Alt(m) == IF m = "cbegin()" THEN {"cbegin()", "constBegin()"} ELSE IF m = "cend()" THEN {"cend()", "constEnd()"} ELSE {m}
DetachingTemporary == UNION { Val("detaching-temporary", Both, o[1] \o o[2] \o m[1], {t \o o[2] \o n : t \in o[3], n \in Alt(m[2])}, o[4] /\ o[1] # "(gl + gm)") : o \in {x \in Temps : x[4]}, m \in DetMeth }
   \cup UNION { Val("detaching-temporary", Both, o \o "[" \o i \o "]", {o \o ".at(" \o i \o ")"}, FALSE) : o \in {"fl()", "gs.fl()", "ps->fl()", "mk(1, 2)", "fstr()", "(fl())"}, i \in {"0", "gi + 1", "fl().size() - 1", "gl[0]", "(0)", "gs.l[0]"} }
   \cup UNION { Val("detaching-temporary", Both, o \o "[ 0 ]", {o \o ".at(0)", o \o ".at( 0 )"}, FALSE) : o \in {"fl()", "gs.fl()", "fstr()"} }
   \cup UNION { Val("detaching-temporary", Both, "fmap()[" \o i \o "]", {"fmap().value(" \o i \o ")"}, FALSE) : i \in {"0", "gi + 1", "gl[0]"} }

MemObjs == { <<"m", TRUE>>, <<"this->m", TRUE>>, <<"o.m", FALSE>>, <<"po->m", FALSE>>, <<"(m)", FALSE>>, <<"gs.l", FALSE>>, <<"ps->l", FALSE>>, <<"this -> m", FALSE>>, <<"o . m", FALSE>>, <<"MMAC", FALSE>>, <<"u@::m", FALSE>>, <<"self().m", FALSE>>, <<"dl", FALSE>>, <<"this->dl", FALSE>>, <<"o.so.m", FALSE>> }
MemCtx == { <<"struct u@ { QList<int> m; DList dl; struct { QList<int> m; } so; u@ &self(); void g(u@ &o, u@ *po) { use(", ", 1); (void)&o; (void)po; } };", TRUE>>,
            <<"struct u@ { QList<int> m; DList dl; struct { QList<int> m; } so; u@ &self(); void g(u@ &o, u@ *po) { if (", " == 1) {} (void)&o; (void)po; } };", FALSE>>,
            <<"struct u@ { QList<int> m; DList dl; struct { QList<int> m; } so; u@ &self(); void g(u@ &o, u@ *po) { ID(use(", ", 1)); (void)&o; (void)po; } };", FALSE>>,
            <<"struct u@ { QList<int> m; DList dl; struct { QList<int> m; } so; u@ &self(); void g(u@ &o, u@ *po) { use(ID(", "), 1); (void)&o; (void)po; } };", FALSE>> }
Mem(b, A, m) == {U("detaching-member", Both, x[1] \o b \o x[2], {x[1] \o a \o x[2] : a \in A}, m /\ x[3]) : x \in MemCtx}
DetachingMember == UNION { Mem(o[1] \o "." \o d[1], {o[1] \o "." \o n : n \in Alt(d[2])}, o[2]) : o \in MemObjs, d \in {<<"first()", "constFirst()">>, <<"last()", "constLast()">>} }
   \cup UNION { Mem("*" \o o[1] \o "." \o d[1], {"*" \o o[1] \o "." \o n : n \in Alt(d[2])}, FALSE) : o \in MemObjs, d \in {<<"begin()", "cbegin()">>} }
   \cup UNION { Mem(o[1] \o "[" \o i \o "]", {o[1] \o ".at(" \o i \o ")"}, FALSE) : o \in MemObjs, i \in {"0", "gi + 1", "gl[0]", "(0)", "m.size() - 1"} }
   \cup UNION { Mem(o[1] \o "[ 0 ]", {o[1] \o p : p \in {".at(0)", ".at( 0 )", ".at(0 )", ".at( 0)"}}, FALSE) : o \in MemObjs }
   \cup UNION { Mem(o[1] \o " [0]", {o[1] \o ".at(0)", o[1] \o " .at(0)"}, FALSE) : o \in {<<"m", 1>>, <<"this->m", 1>>} }

AUnits == QGetenv \cup QFileInfoExists \cup QDateTimeUtc \cup QColor \cup UseArrow \cup IsEmptyVsCount \cup QByteArrayConv \cup DetachingTemporary \cup DetachingMember

(* ---- rules of the other checks ---- *)
QsObjs == {"gstr", "gs.str", "ps->str", "fstr()", "(*pstr)", "pstr[0]", "QString(\"%1 %2\")", "QStringLiteral(\"%1 %2\")", "gstrl[0]"}
QsArgs == {"gstr", "gs.str", "fstr()", "(gstr)", "gstr.mid(1, 2)", "gb ? gstr : gstr2", "gstr + gstr2", "*pstr", "QString(\",\")", "fstr2(gstr, 1)", "SMAC"}
RECURSIVE Times(_, _)
Times(n, w) == IF n = 0 THEN "" ELSE w \o Times(n - 1, w)
QStringArg == UNION { Val("qstring-arg", Both, "gstr" \o Times(n, ".arg(gstr2)"), {"gstr.arg(gstr2" \o Times(n - 1, ", gstr2") \o ")"}, n < 5) : n \in 2..9 }
   \cup UNION { Never("qstring-arg", Both, "void u@() { (void)gstr" \o Times(n, ".arg(gstr2)") \o "; }") : n \in 10..11 }
   \cup UNION { Val("qstring-arg", Both, o \o ".arg(gstr).arg(" \o a \o ")", {o \o ".arg(gstr, " \o a \o ")"}, o \in {"gstr", "fstr()", "QString(\"%1 %2\")"} /\ a # "SMAC") : o \in QsObjs, a \in {"gstr2"} }
   \cup UNION { Val("qstring-arg", Both, "gstr.arg(" \o a \o ").arg(" \o b \o ")", {"gstr.arg(" \o a \o ", " \o b \o ")"}, FALSE) : a \in QsArgs, b \in {"gstr", "fstr()"} }
   \cup UNION { Val("qstring-arg", Both, "gstr.arg(gstr2).arg(" \o a \o ").arg(gstr, gstr2)", {"gstr.arg(gstr2, " \o a \o ", gstr, gstr2)"}, FALSE) : a \in QsArgs }
   \cup UNION { Val("qstring-arg", Both, "gstr" \o a[1], {"gstr" \o a[2]}, FALSE)
              : a \in {<<".arg(5).arg(gstr).arg(gstr2)", ".arg(5).arg(gstr, gstr2)">>, <<".arg(gstr).arg(gstr2).arg(5)", ".arg(gstr, gstr2).arg(5)">>, <<".arg(gstr, 5).arg(gstr).arg(gstr2)", ".arg(gstr, 5).arg(gstr, gstr2)">>,
                       <<" . arg ( gstr ) . arg ( gstr2 )", " . arg(gstr, gstr2)">>, <<".mid(1).arg(gstr).arg(gstr2)", ".mid(1).arg(gstr, gstr2)">>, <<".arg(gstr).arg(gstr2).mid(1)", ".arg(gstr, gstr2).mid(1)">>} }
   \cup UNION { Never("qstring-arg", Both, "void u@() { (void)gstr" \o a \o "; }") : a \in {".arg(5).arg(6)", ".arg(gstr)", ".arg(gstr, gstr2)", ".arg(gstr).arg(5).arg(gstr2)", ".arg(gstr, -5).arg(gstr, -5)", ".arg(5.0).arg(gstr)", ".arg(gstr).mid(1).arg(gstr2)"} }

Builder == {"gstr % gstr2", "gstr % \"x\" % gstr2", "fstr() % gs.str", "QLatin1String(\"a\") % gstr"}
AutoBuilder == UNION { Line("auto-unexpected-qstringbuilder", Both, "void u@() { " \o t[1] \o " s = " \o b \o "; sink(QString(s)); }", "void u@() { " \o t[2] \o " s = " \o b \o "; sink(QString(s)); }", TRUE)
                     : b \in Builder, t \in {<<"auto", "QString">>, <<"const auto", "const QString">>, <<"auto const", "QString const">>, <<"volatile auto", "volatile QString">>} \ {<<"volatile auto", "volatile QString">>} }
   \cup UNION { {U("auto-unexpected-qstringbuilder", Both, "void u@() { " \o x[1] \o " }", {"void u@() { " \o x[2] \o " }"}, FALSE)}
              : x \in {<<"static auto s = gstr % gstr2; sink(QString(s));", "static QString s = gstr % gstr2; sink(QString(s));">>, <<"static const auto s = gstr % gstr2; sink(QString(s));", "static const QString s = gstr % gstr2; sink(QString(s));">>,
                       <<"auto s(gstr % gstr2); sink(QString(s));", "QString s(gstr % gstr2); sink(QString(s));">>, <<"auto s{gstr % gstr2}; sink(QString(s));", "QString s{gstr % gstr2}; sink(QString(s));">>,
                       <<"if (auto s = gstr % gstr2; gb) sink(QString(s));", "if (QString s = gstr % gstr2; gb) sink(QString(s));">>, <<"ID(auto s = gstr % gstr2;) sink(QString(s));", "ID(QString s = gstr % gstr2;) sink(QString(s));">>} }
   \cup UNION { May("auto-unexpected-qstringbuilder", Both, "void u@() { " \o x \o " }")
              : x \in {"auto a = gstr % gstr2, b = gstr2 % gstr; sink(QString(a)); sink(QString(b));", "auto a = gstr % gstr2, *b = &a; sink(QString(*b));", "const auto a = gstr % gstr2, &b = a; sink(QString(b));",
                       "auto l = [] { return gstr % gstr2; }; sink(QString(l()));", "[s = gstr % gstr2] { sink(QString(s)); }();", "for (auto s = gstr % gstr2; gb;) sink(QString(s));"} }
   \cup UNION { Never("auto-unexpected-qstringbuilder", Both, "void u@() { " \o x \o " }") : x \in {"auto &&s = gstr % gstr2; sink(QString(s));", "const auto &s = gstr % gstr2; sink(QString(s));", "QString s = gstr % gstr2; sink(s);", "auto s = gstr; sink(s);"} }

LoopVar == {"int i", "auto i", "const auto &i", "const int i", "const int &i"}
LoopObj == { <<"gl", TRUE>>, <<"gs.l", TRUE>>, <<"ps->l", TRUE>>, <<"(*ps).l", TRUE>>, <<"::gl", TRUE>>, <<"gs . l", FALSE>>, <<"LMAC", FALSE>>, <<"ID(gl)", FALSE>>, <<"S::sm", FALSE>>, <<"gvs[0].l", FALSE>>, <<"fps()->l", TRUE>>, <<"frs().l", FALSE>>, <<"dl", FALSE>> }
RangeDetach == UNION { Line("range-loop-detach", Both, "void u@() { for (" \o v \o " : " \o o[1] \o ") sink(i); }", "void u@() { for (" \o v \o " : std::as_const(" \o o[1] \o ")) sink(i); }", o[2]) : v \in LoopVar, o \in LoopObj }
   \cup UNION { Line("range-loop-detach", Both, "void u@() { ID(for (int i : " \o o[1] \o ") sink(i);) }", "void u@() { ID(for (int i : std::as_const(" \o o[1] \o ")) sink(i);) }", FALSE) : o \in LoopObj }
   \cup UNION { Line("range-loop-detach", Both, "struct u@ { QList<int> m; QList<int> &rm(); void g(u@ &o) { for (int i : " \o o \o ") sink(i); (void)&o; } };", "struct u@ { QList<int> m; QList<int> &rm(); void g(u@ &o) { for (int i : std::as_const(" \o o \o ")) sink(i); (void)&o; } };", FALSE)
              : o \in {"m", "this->m", "o.m", "u@::m", "this->u@::m"} }
   \cup UNION { May("range-loop-detach", Both, "void u@() { for (int i : " \o o \o ") sink(i); }") : o \in {"fs().l", "S().l", "(gl)", "*pl", "pl[0]", "rl()", "gb ? gl : gm", "gl = gm", "QList<int>(gl)", "static_cast<QList<int> &>(gl)", "std::move(gl)", "gll[0]", "gll.first()"} }
   \cup UNION { May("range-loop-detach", Both, "void u@() { " \o x \o " }") : x \in {"QList<int> a = fl(); a << 1; for (int i : a) sink(i);", "auto a = gl; use(a, 1); for (int i : a) sink(i);", "for (QList<int> a = gl; int i : a) { sink(i); }", "auto f = [a = gl]() mutable { for (int i : a) sink(i); }; f();"} \ {"for (QList<int> a = gl; int i : a) { sink(i); }"} }
   \cup UNION { Never("range-loop-detach", Both, "void u@() { for (" \o x \o ") sink(i); }") : x \in {"auto &i : gl", "int &i : gl", "int i : std::as_const(gl)", "int i : fl()", "int i : cgl", "auto &i : gs.l"} \cup {} }

RefVars == { <<"QString s", "const QString &s">>, <<"auto s", "const auto &s">>, <<"const QString s", "const QString &s">>, <<"const auto s", "const auto &s">>, <<"QString const s", "QString const &s">>, <<"auto const s", "auto const &s">>, <<"::QString s", "const ::QString &s">> }
RangeRef == UNION { Line("range-loop-reference", Both, "void u@() { " \o x[1] \o "for (" \o v[1] \o " : " \o l \o ") sink(s);" \o x[2] \o " }", "void u@() { " \o x[1] \o "for (" \o v[2] \o " : " \o l \o ") sink(s);" \o x[2] \o " }", x[1] # "ID(")
                  : v \in RefVars, l \in {"gsl", "std::as_const(gsl)", "fsl()"}, x \in {<<"", "">>, <<"[] { ", " }();">>, <<"ID(", ")">>, <<"if (gb) ", "">>} }
   \cup UNION { May("range-loop-reference", Both, x) : x \in {"template <class T> void u@(T t) { for (auto s : t) sink(s); } template void u@(QList<QString>); template void u@(QVector<QByteArray>);", "template <class T> void u@(QList<T> t) { for (T s : t) sink(s); } template void u@(QList<QString>);",
                    "template <class T> void u@(QList<T> t) { for (T s : t) sink(s); } template void u@(QList<int>); template void u@(QList<QString>);", "void u@() { for (auto [a, b] : QList<QPair<QString, QString>>()) sink(a + b); }", "void u@() { for (QPair<QString, int> s : QList<QPair<QString, int>>()) sink(s); }",
                    "void u@() { for (std::pair<QString, int> s : std::vector<std::pair<QString, int>>()) sink(s); }", "void u@() { for (decltype(gstr) s : gsl) sink(s); }", "void u@() { for (struct S s : QList<S>()) sink(s); }", "void u@() { for (QVariant s : gsl) sink(s); }", "void u@() { for (QStringList s : QList<QStringList>()) sink(s); }"} }
   \cup UNION { Never("range-loop-reference", Both, "void u@() { for (" \o x \o " }") : x \in {"QString s : gsl) { s += gstr; sink(s); }", "QString &s : gsl) sink(s);", "auto &&s : gsl) sink(s);", "QString s : gsl) { QString *p = &s; sink(p); }", "int s : gl) sink(s);", "QString s : gsl) s.clear();", "QString s : gsl) gsl2.append(std::move(s));", "QString s : gsl) { s[0] = QLatin1Char('c'); }"} }

RefFirst == {<<"left(2)", "leftRef(2)">>, <<"mid(1, 2)", "midRef(1, 2)">>, <<"right(gi)", "rightRef(gi)">>, <<"mid(fstr().size())", "midRef(fstr().size())">>}
QStringRef == UNION { Val("qstring-ref", {5}, o \o "." \o f[1] \o "." \o m, {o \o "." \o f[2] \o "." \o m}, o \in {"gstr", "gs.str", "ps->str"})
                    : o \in {"gstr", "gs.str", "ps->str", "(*pstr)", "gstrl[0]", "fstr2(gstr, 1)"}, f \in RefFirst, m \in {"toInt()", "size()", "startsWith(gstr2)", "contains(gstr2)", "indexOf(gstr2, 1)", "compare(gstr2)", "toDouble(&gb)", "isEmpty()"} }
   \cup UNION { Line("qstring-ref", {5}, "void u@() { " \o a \o "." \o f[1] \o b \o " }", "void u@() { " \o a \o "." \o f[2] \o b \o " }", FALSE) : f \in RefFirst, <<a, b>> \in {<<"gstr.append(gstr2", ");">>, <<"gstr += gstr2", ";">>, <<"gstr += gs.str", ";">>, <<"use(gstr.count(gstr2", "), 1);">>, <<"use(gstr.endsWith(gstr2", "), 1);">>, <<"use(gstr.indexOf(gstr2", ", 1), 1);">>} }
   \cup UNION { May("qstring-ref", {5}, "void u@() { " \o x \o " }") : x \in {"(void)gstr.mid(1).contains(QRegularExpression());", "(void)gstr.mid(1).count(QLatin1Char('c'));", "(void)gstr.mid(1).toUcs4();", "QVariant v(gstr.mid(1)); use(v, 1);", "(void)gstr.mid(1).mid(2).toInt();", "(void)gstr.mid(1).toUpper().toInt();", "(void)gstr.mid(1).isNull();", "(void)gstr.mid(1).compare(QLatin1String(\"x\"), Qt::CaseInsensitive);",
                    "(void)gstr.mid(1).lastIndexOf(QLatin1String(\"x\"));", "(void)gstr.left(1).toInt(&gb, 16);", "gstr.append(gb ? gstr.mid(1) : gstr2);", "gstr.append(gstr.mid(1) + gstr2);", "(void)fstr().mid(1).toInt();", "(void)gstr.left(1).contains(gstr2, Qt::CaseInsensitive);", "(void)gstr.left(1).startsWith(QStringRef(&gstr));", "gstr += gstr2.mid(1).left(2);"} }

InlineDecls == { <<"", "int f();", "int u@::f() { return 1; }">>, <<"", "virtual int f();", "int u@::f() { return 1; }">>, <<"", "static int f();", "int u@::f() { return 1; }">>, <<"", "u@(int);", "u@::u@(int) {}">>, <<"", "explicit u@(int);", "u@::u@(int) {}">>, <<"", "~u@();", "u@::~u@() {}">>,
                 <<"", "u@ &operator=(const u@ &);", "u@ &u@::operator=(const u@ &) { return *this; }">>, <<"", "operator int() const;", "u@::operator int() const { return 1; }">>, <<"template <class X> ", "X f();", "template <class X>" >> } \ {<<"template <class X> ", "X f();", "template <class X>" >>}
Inline == UNION { {U("sanitize-inline-keyword", Both, "struct u@ { int a; " \o d[2] \o " }; inline " \o d[3], {"struct u@ { int a; inline " \o d[2] \o " };  " \o d[3], "struct u@ { int a; inline " \o d[2] \o " }; " \o d[3]}, d[2] \notin {"u@(int);", "explicit u@(int);", "~u@();", "operator int() const;"})} : d \in InlineDecls }
   \cup UNION { May("sanitize-inline-keyword", Both, x) : x \in {"struct u@ { [[nodiscard]] int f(); }; inline int u@::f() { return 1; }", "struct u@ { int f(), g(); }; inline int u@::f() { return 1; }", "template <class X> struct u@ { X f(); }; template <class X> inline X u@<X>::f() { return X(); } template struct u@<int>;",
                    "struct u@ { template <class X> X f(); }; template <class X> inline X u@::f() { return X(); } template int u@::f<int>();", "struct u@ { int f(); }; int inline u@::f() { return 1; }", "#define INL@ inline", "struct u@ { int f(); }; [[gnu::always_inline]] inline int u@::f() { return 1; }",
                    "struct u@ { struct I { int f(); }; int g(); }; inline int u@::I::f() { return 1; } inline int u@::g() { return 1; }", "struct u@ { ID(int f();) }; ID(inline int u@::f() { return 1; })", "struct u@ { auto f() -> int; }; inline auto u@::f() -> int { return 1; }", "struct u@ { friend int f@(); int g(); }; inline int u@::g() { return 1; } inline int f@() { return 1; }"} \ {"#define INL@ inline"} }
   \cup UNION { Never("sanitize-inline-keyword", Both, x) : x \in {"struct u@ { inline int f(); }; inline int u@::f() { return 1; }", "struct u@ { int f(); }; int u@::f() { return 1; }", "struct u@ { inline int f(); }; int u@::f() { return 1; }", "struct u@ { int f() { return 1; } };"} }

Poly == UNION { May("copyable-polymorphic", Both, x) : x \in {"struct u@ { virtual void f(); };", "struct u@ { virtual void f(); private: int a; };", "class u@ { public: virtual void f(); };", "class u@ { virtual void f(); };", "class u@ { int a; public: virtual void f(); private: int b; public: int c; };", "struct u@ { u@(); virtual void f(); };", "struct u@ { u@() {} virtual void f(); };",
                    "struct u@ { u@() = default; virtual void f(); };", "struct u@ { explicit u@(int a = 1); virtual void f(); };", "struct u@ { explicit u@(int a); virtual void f(); };", "class u@ { public: u@(); virtual void f(); private: int b; };", "struct u@ { virtual ~u@(); };", "struct u@ final { virtual void f(); };", "template <class T> struct u@ { virtual void f(T); }; template struct u@<int>;",
                    "struct u@ { struct I { virtual void f(); } i; };", "void u@() { struct L { virtual void f() {} }; L l; (void)l; }", "namespace u@ { struct P { virtual void f(); }; }", "struct u@ { virtual void f(); protected: u@() = default; };", "struct u@ { int &r; virtual void f(); };", "struct u@ { u@(const u@ &); virtual void f(); };", "struct u@ { u@(const u@ &) = default; u@() = default; virtual void f(); };",
                    "ID(struct u@ { virtual void f(); };)", "struct { virtual void f() {} } u@;", "struct u@ : S { virtual void f(); };", "struct u@ { virtual void f(); public: int a; private: };", "struct B@ { B@(int); }; struct u@ : B@ { using B@::B@; virtual void f(); };", "struct u@ { private : int a; public : virtual void f(); };", "struct u@ { u@ &operator=(const u@ &); virtual void f(); };", "struct u@{virtual void f();};"} }
   \cup UNION { Never("copyable-polymorphic", Both, x) : x \in {"struct u@ { int f(); };", "struct u@ { u@(const u@ &) = delete; u@ &operator=(const u@ &) = delete; virtual void f(); };", "struct u@ { Q_DISABLE_COPY(u@) virtual void f(); };", "class u@ : public QObject { Q_OBJECT };"} }

Chrono == { <<"1000", "1s">>, <<"500", "500ms">>, <<"60000", "1min">>, <<"3600000", "1h">>, <<"1000 * 60", "1min">>, <<"5 * 1000", "5s">>, <<"1000 * 60 * 60 * 2", "2h">>, <<"1", "1ms">>, <<"0x3e8", "1s">>, <<"10'000", "10s">>, <<"7000 / 2", "3500ms">>, <<"60 * 1001", "60060ms">> }
ChCtx == { <<"gt.start(", ");", TRUE>>, <<"gt.setInterval(", ");", TRUE>>, <<"pt->start(", ");", TRUE>>, <<"pdt2->setInterval(", ");", TRUE>>, <<"QTimer::singleShot(", ", po, [] {});", TRUE>>, <<"QTimer::singleShot(", ", po, SLOT(slot0()));", TRUE>>, <<"QTimer::singleShot(", ", po, &Ov::slot0);", TRUE>>, <<"QTimer::singleShot(", ", [] {});", TRUE>>, <<"ID(gt.start(", "));", FALSE>>, <<"gt.start(ID(", "));", FALSE>>, <<"[] { gt.start(", "); }();", TRUE>> }
UseChrono == UNION { {U("use-chrono-in-qtimer", Both, "void u@() { " \o x[1] \o v[1] \o x[2] \o " }", {"void u@() { " \o x[1] \o v[2] \o x[2] \o " }"} \cup (IF x[1] = "gt.start(ID(" THEN {"void u@() { gt.start(" \o v[2] \o "); }"} ELSE {}), x[3])} : v \in Chrono, x \in ChCtx }
   \cup UNION { May("use-chrono-in-qtimer", Both, "void u@() { " \o x \o " }") : x \in {"gt.start(TMAC);", "gt.start((1000));", "gt.start((1 + 1) * 1000);", "gt.start(gb ? 1000 : 2000);", "gt.start(5 / 0);", "gt.start(2147483647);", "gt.start(2147483 * 1000);", "QTimer::singleShot(1000, Qt::PreciseTimer, po, SLOT(slot0()));", "QTimer::singleShot(1000, Qt::PreciseTimer, po, [] {});", "gt.start(1000u);", "gt.start(1000L);"} }
   \cup UNION { Never("use-chrono-in-qtimer", Both, "void u@() { " \o x \o " }") : x \in {"gt.start();", "gt.start(0);", "gt.start(gi);", "gt.start(1s);", "gt.start(0 * 1000);", "gt.start(gi * 1000);", "QTimer::singleShot(0, po, [] {});", "gt.start(std::chrono::seconds(1));"} }

KwTxt == { <<"class u@ : public QObject { Q_OBJECT signals: void a(); };", "class u@ : public QObject { Q_OBJECT Q_SIGNALS: void a(); };">>, <<"class u@ : public QObject { Q_OBJECT public slots: void a(); };", "class u@ : public QObject { Q_OBJECT public Q_SLOTS: void a(); };">>,
           <<"class u@ : public QObject { Q_OBJECT private slots: void a(); protected slots: void b(); signals: void c(); };", "class u@ : public QObject { Q_OBJECT private Q_SLOTS: void a(); protected Q_SLOTS: void b(); Q_SIGNALS: void c(); };">>,
           <<"void u@() { foreach (int i, gl) sink(i); }", "void u@() { Q_FOREACH (int i, gl) sink(i); }">> }
Emits == { <<"void u@() { emit po->none(); }", "void u@() { Q_EMIT po->none(); }">>, <<"void u@() { if (gb) emit po->none(); else emit po->single(1); }", "void u@() { if (gb) Q_EMIT po->none(); else Q_EMIT po->single(1); }">>, <<"void u@() { [] { emit po->none(); }(); }", "void u@() { [] { Q_EMIT po->none(); }(); }">>, <<"void u@() { emit(po->none()); }", "void u@() { Q_EMIT(po->none()); }">> }
Keywords == UNION { Line("qt-keywords", Both, x[1], x[2], TRUE) : x \in KwTxt \cup Emits } \cup UNION { Line("qt-keyword-emit", Both, x[1], x[2], TRUE) : x \in Emits }
   \cup UNION { Line(c, Both, "void u@() { ID(emit po->none();) }", "void u@() { ID(Q_EMIT po->none();) }", FALSE) : c \in {"qt-keywords", "qt-keyword-emit"} }
   \cup UNION { Never(c, Both, x) : c \in {"qt-keywords", "qt-keyword-emit"}, x \in {"void u@() { Q_EMIT po->none(); }", "struct u@ { int Emit; };", "void u@() { Q_FOREACH (int i, gl) sink(i); }", "const char *u@() { return \"emit signals slots\"; }", "class u@ : public QObject { Q_OBJECT Q_SIGNALS: void a(); public Q_SLOTS: void b(); };"} }

Pmf == { <<"qOverload<int>(&Ov::single)", "&Ov::single">>, <<"QOverload<int>::of(&Ov::single)", "&Ov::single">>, <<"static_cast<void (Ov::*)(int)>(&Ov::single)", "&Ov::single">>, <<"QOverload<int>::of(&Ov::over)", "qOverload<int>(&Ov::over)">>, <<"static_cast<void (Ov::*)(int)>(&Ov::over)", "qOverload<int>(&Ov::over)">>,
         <<"QOverload<const QString &, int>::of(&Ov::over)", "qOverload<const QString &, int>(&Ov::over)">>, <<"static_cast<void (Ov::*)(const QString &, int)>(&Ov::over)", "qOverload<const QString &, int>(&Ov::over)">> }
Connects == UNION { Line("modernize-overloaded-connects", Both, "void u@() { " \o x[1] \o p[1] \o x[2] \o " }", "void u@() { " \o x[1] \o p[2] \o x[2] \o " }", x[3])
                  : p \in Pmf, x \in {<<"QObject::connect(po, ", ", po, [] {});", TRUE>>, <<"QObject::connect(po, ", ", [] {});", TRUE>>, <<"QObject::connect(po, ", ", po, &Ov::slot0, Qt::QueuedConnection);", TRUE>>, <<"ID(QObject::connect(po, ", ", po, [] {}));", FALSE>>} }
   \cup UNION { Line("modernize-overloaded-connects", Both, "void u@() { " \o x[1] \o p[1] \o x[2] \o " }", "void u@() { " \o x[1] \o p[2] \o x[2] \o " }", x[3])
                  : p \in {<<"qOverload<int>(&Ov::slot)", "&Ov::slot">>, <<"QOverload<int>::of(&Ov::slot)", "&Ov::slot">>, <<"static_cast<void (Ov::*)(int)>(&Ov::slot)", "&Ov::slot">>, <<"QOverload<int>::of(&Ov::oslot)", "qOverload<int>(&Ov::oslot)">>, <<"static_cast<void (Ov::*)(int)>(&Ov::oslot)", "qOverload<int>(&Ov::oslot)">>, <<"QOverload<>::of(&Ov::oslot)", "qOverload<>(&Ov::oslot)">>, <<"static_cast<void (Ov::*)()>(&Ov::oslot)", "qOverload<>(&Ov::oslot)">>},
                    x \in {<<"QObject::connect(po, &Ov::single, po, ", ");", TRUE>>, <<"QObject::connect(po, &Ov::sig, po, ", ", Qt::QueuedConnection);", TRUE>>} }
   \cup UNION { May("modernize-overloaded-connects", Both, "void u@() { QObject::connect(po, " \o x \o ", po, [] {}); }") : x \in {"QOverload<int>::of( &Ov::single )", "QOverload< int >::of(&Ov::over)", "::QOverload<int>::of(&Ov::over)", "QOverload<int>:: of(&Ov::over)", "static_cast<void (Ov::*)(int)>( &Ov::over )", "static_cast< void(Ov::*)(int) >(&Ov::single)", "qOverload<int>( &Ov::single )", "(qOverload<int>(&Ov::single))", "QNonConstOverload<int>::of(&Ov::over)", "qNonConstOverload<int>(&Ov::single)", "(void (Ov::*)(int))&Ov::over", "QOverload<int> :: of (&Ov::over)", "static_cast<void (Ov::*)(int)>((&Ov::over))", "QOverload<int>::of(ID(&Ov::over))", "gb ? qOverload<int>(&Ov::over) : qOverload<int>(&Ov::over)"} }

ListInit == UNION { Line("modernize-list-initialization", Both, "void u@() { " \o x[1] \o " }", "void u@() { " \o x[2] \o " }", FALSE)
                  : x \in {<<"tsl(QStringList() << gstr << gstr2);", "tsl({gstr, gstr2});">>, <<"tsl(QStringList() << gstr);", "tsl({gstr});">>, <<"tsl(QStringList() << \"a\" << \"b\");", "tsl({\"a\", \"b\"});">>, <<"tli(QList<int>() << 1 << 2 << gi + 1);", "tli({1, 2, gi + 1});">>,
                           <<"QStringList s = QStringList() << gstr << gstr2; sink(s);", "QStringList s{gstr, gstr2}; sink(s);">>, <<"const QList<int> s = QList<int>() << 1 << 2; sink(s);", "const QList<int> s{1, 2}; sink(s);">>, <<"static const QStringList s = QStringList() << gstr; sink(s);", "static const QStringList s{gstr}; sink(s);">>} }
   \cup UNION { May("modernize-list-initialization", Both, "void u@() { " \o x \o " }")
              : x \in {"auto s = QStringList() << gstr << gstr2; sink(s);", "const auto s = QList<int>() << 1; sink(s.size());", "auto s = QList<int>() << 1 << 2; sink(s.size());",
                       "QStringList s = (QStringList() << gstr << gstr2); sink(s);", "QStringList s(QStringList() << gstr << gstr2); sink(s);", "QStringList s{QStringList() << gstr << gstr2}; sink(s);", "QStringList a = QStringList() << gstr, b = QStringList() << gstr2; sink(a); sink(b);", "QVariant v(QStringList() << gstr); sink(v);", "gstrl = QStringList() << gstr << gstr2;", "gstrl += QStringList() << gstr;", "tsl(QStringList() << (gb ? gstr : gstr2) << gstr);",
                       "tsl((QStringList() << gstr << gstr2));", "tsl(gb ? QStringList() << gstr : gstrl);", "tsl(QStringList() << gstr /* c */ << gstr2);", "sink(QStringList() << gstr << gstr2);", "sink(QList<QStringList>() << (QStringList() << gstr) << gstrl);", "sink((QStringList() << gstr).join(gstr2));", "tsl(QStringList() << SMAC << gstr);", "ID(tsl(QStringList() << gstr << gstr2));", "tsl(ID(QStringList() << gstr << gstr2));", "auto f = [] { return QStringList() << gstr; }; sink(f());", "auto f = []() -> QStringList { return QStringList() << gstr; }; sink(f());",
                       "QList<QVariant> l = QList<QVariant>() << 1 << gstr; sink(l);", "QList<double> l = QList<double>() << gi << 2; sink(l);", "QList<uchar> l = QList<uchar>() << gi; sink(l);", "QStringList s = gstrl << gstr; sink(s);", "QStringList s = QStringList(gstrl) << gstr; sink(s);", "QStringList *s = new QStringList(QStringList() << gstr); sink(s);", "tsl(QStringList() << \"a\" + gstr << gstr2);", "tsl(QStringList() << \"a\" \"b\" << gstr2);"} }
   \cup UNION { May("modernize-list-initialization", Both, x) : x \in {"QStringList u@() { return QStringList() << gstr << gstr2; }", "auto u@() { return QStringList() << gstr << gstr2; }", "struct u@ { QStringList s = QStringList() << gstr; };", "struct u@ { QStringList s; u@() : s(QStringList() << gstr << gstr2) {} };", "void u@(QStringList = QStringList() << gstr << gstr2);", "QStringList u@ = QStringList() << gstr << gstr2;", "static const QStringList u@ = QStringList() << \"a\" << \"b\";"} }
   \cup UNION { Never("modernize-list-initialization", Both, "void u@() { " \o x \o " }") : x \in {"tsl(QStringList() << fsl() << gstr);", "tsl(QStringList() << gstrl << gstr);", "tsl(QStringList(gstrl) << gstr);", "tsl(QStringList{gstr} << gstr2);", "tsl(QStringList(fsl()) << gstr);", "tsl(QStringList() << gstrl);", "tli(QList<int>() << gl << 1);", "tli(QList<int>() << QList<int>() << 1);", "QList<int> l; tli(l << 1);", "gstrl << gstr << gstr2;"} }

ByRefTy == { <<"QString", "s">>, <<"QList<int>", "s">>, <<"QMap<int, QString>", "s">>, <<"S", "s">>, <<"::QString", "s">>, <<"QVariant", "s">> }
ByRef == UNION { Line("function-args-by-ref", Both, x[1] \o t[1] \o " s" \o x[2], x[1] \o "const " \o t[1] \o " &s" \o x[2], x[3])
               : t \in ByRefTy, x \in {<<"void u@(", ") { sink(s); }", TRUE>>, <<"void u@(int, ", ", int) { sink(s); }", TRUE>>, <<"struct u@ { void f(", ") const { sink(s); } };", TRUE>>, <<"struct u@ { static void f(", ") { sink(s); } };", TRUE>>, <<"auto u@ = [](", ") { sink(s); };", TRUE>>, <<"struct u@ { void operator()(", ") { sink(s); } };", TRUE>>, <<"namespace u@ { void f(", ") { sink(s); } }", TRUE>>, <<"ID(void u@(", ") { sink(s); })", FALSE>>} }
   \cup UNION { Line("function-args-by-ref", Both, "void u@(" \o t[1] \o "); void u@(" \o t[2] \o ") { sink(s); }", "void u@(" \o t[3] \o "); void u@(" \o t[4] \o ") { sink(s); }", FALSE)
              : t \in {<<"QString s", "QString s", "const QString &s", "const QString &s">>, <<"QString x", "QString s", "const QString &x", "const QString &s">>, <<"QString s = QString()", "QString s", "const QString &s = QString()", "const QString &s">>, <<"const QString s", "const QString s", "const QString &s", "const QString &s">>, <<"QString s", "const QString s", "const QString &s", "const QString &s">>} }
   \cup UNION { May("function-args-by-ref", Both, x) : x \in {"void u@(QString) {}", "void u@(QString); void u@(QString s) { sink(s); }", "void u@(QString s, QString t) { sink(s); sink(t); }", "struct B@ { virtual void f(QString); }; struct u@ : B@ { void f(QString s) override { sink(s); } };", "struct u@ { virtual void f(QString s) { sink(s); } };", "struct u@ { QString m; u@(QString s) : m(s) {} };", "struct u@ { QString m; u@(QString s) : m(std::move(s)) {} };", "template <class T> void u@(T s) { sink(s); } template void u@(QString); template void u@(int);",
                    "template <class T> void u@(QList<T> s) { sink(s); } template void u@(QList<QString>); template void u@(QList<int>);", "template <class T> struct u@ { void f(T s) { sink(s); } }; template struct u@<QString>; template struct u@<int>;", "void u@(decltype(gstr) s) { sink(s); }", "void u@(QString (s)) { sink(s); }", "void u@(QString s = {}) { sink(s); }", "void u@(QString s) { s += gstr; }", "void u@(QString s) { gstr = std::move(s); }", "void u@(QString s[2]) { sink(s); }", "void u@(QString const s) { sink(s); }", "void u@(struct S s) { sink(s); }", "auto u@ = [](auto s) { sink(s); }; void v@() { u@(gstr); u@(1); }", "void u@(auto s);",
                    "struct B@ { virtual void f(QString) = 0; }; struct u@ : B@ { void f(QString s) { sink(s); } }; u@ v@;", "void u@(QString s); void v@() { void (*p)(QString) = u@; p(gstr); }", "struct u@ { friend void f@(QString s) { sink(s); } };", "struct u@ { void f(QString s); }; void u@::f(QString s) { sink(s); }", "extern \"C\" void u@(S s) { sink(s); }", "void u@(QString /* c */ s /* d */) { sink(s); }", "void u@(QString s, ...) { sink(s); }", "int u@(QString s) try { return s.size(); } catch (...) { return 0; }", "struct u@ { explicit operator bool(); void operator+=(QString s) { sink(s); } };", "void u@(std::function<void(QString)> s) { sink(s); }"} \ {"void u@(auto s);"} }

ByValTy == { <<"const QPoint &p", "QPoint p">>, <<"const int &p", "int p">>, <<"const NS::T &p", "NS::T p">>, <<"QPoint const &p", "QPoint p">>, <<"const QPoint &  p", "QPoint p">>, <<"const NS::E &p", "NS::E p">>, <<"const QChar &p", "QChar p">>, <<"const double& p", "double p">>, <<"const ::QPoint &p", "QPoint p">>, <<"const bool &p", "bool p">> }
ByVal == UNION { {U("function-args-by-value", Both, x[1] \o t[1] \o x[2], {x[1] \o t[2] \o x[2]} \cup (IF t[1] = "const ::QPoint &p" THEN {x[1] \o "::" \o t[2] \o x[2]} ELSE {}), FALSE)}
               : t \in ByValTy, x \in {<<"void u@(", ") { sink(p); }", TRUE>>, <<"void u@(int, ", ", int) { sink(p); }", TRUE>>, <<"struct u@ { void f(", ") const { sink(p); } };", TRUE>>, <<"struct u@ { static void f(", ") { sink(p); } };", TRUE>>, <<"auto u@ = [](", ") { sink(p); };", TRUE>>, <<"namespace u@ { void f(", ") { sink(p); } }", TRUE>>, <<"ID(void u@(", ") { sink(p); })", FALSE>>} }
   \cup UNION { Line("function-args-by-value", Both, "void u@(" \o t[1] \o "); void u@(" \o t[2] \o ") { sink(p); }", "void u@(" \o t[3] \o "); void u@(" \o t[4] \o ") { sink(p); }", FALSE)
              : t \in {<<"const QPoint &p", "const QPoint &p", "QPoint p", "QPoint p">>, <<"const QPoint &x", "const QPoint &p", "QPoint x", "QPoint p">>, <<"const QPoint &p = QPoint(1, 2)", "const QPoint &p", "QPoint p = QPoint(1, 2)", "QPoint p">>, <<"const QPoint &p = {}", "const QPoint &p", "QPoint p = {}", "QPoint p">>, <<"const int &p = 1", "const int &p", "int p = 1", "int p">>} }
   \cup UNION { May("function-args-by-value", Both, x) : x \in {"void u@(const QPoint &) {}", "void u@(const QPoint &); void u@(const QPoint &p) { sink(p); }", "void u@(const QPoint &p = QPoint()) { sink(p); }", "void u@(const QPoint & = QPoint()) {}", "void u@(const QPoint &p=QPoint()) { sink(p); }", "void u@(const int &p=1) { sink(p); }", "void u@(const int &p=1); void u@(const int &p) { sink(p); }", "template <class T> void u@(const T &p) { sink(p); } template void u@(const QPoint &); template void u@(const QString &);", "template <class T> struct u@ { void f(const T &p) { sink(p); } }; template struct u@<int>; template struct u@<QString>;", "template <class T> struct u@ { void f(const T &p) { sink(p); } }; template struct u@<int>; template struct u@<double>;",
                    "namespace NS { void u@(const T &p) { sink(p); } }", "namespace NS { namespace In { void u@(const U &p) { sink(p); } } }", "using namespace NS; void u@(const In::U &p) { sink(p); }", "struct u@ { struct I { int a; }; void f(const I &p) { sink(p); } };", "struct u@ { struct I { int a; }; void f(const I &p); }; void u@::f(const I &p) { sink(p); }", "struct u@ { enum X { Y }; void f(const X &p); }; void u@::f(const u@::X &p) { sink(p); }", "void u@(const std::pair<int, int> &p) { sink(p); }", "void u@(const decltype(gi) &p) { sink(p); }", "void u@(const int (&p)[2]) { sink(p[0]); }", "void u@(void (*const &p)()) { sink(p); }", "void u@(int *const &p) { sink(p); }", "void u@(const int *const &p) { sink(p); }", "void u@(const char *const &p) { sink(p); }", "typedef int *IP@; void u@(const IP@ &p) { sink(p); }", "void u@(int Ov::*const &p) { sink(p); }", "void u@(const QFlags<Qt::AlignmentFlag> &p) { sink(p); }", "void u@(const Qt::Alignment &p) { sink(p); }",
                    "struct u@ { u@(const u@ &p); int a; };", "struct u@ { const int &m; u@(const int &p) : m(p) {} };", "struct u@ { int m; u@(const int &p) : m(p) {} };", "struct B@ { virtual void f(const int &); }; struct u@ : B@ { void f(const int &p) override { sink(p); } };", "struct u@ { virtual void f(const int &p) { sink(p); } };", "auto u@ = [](const auto &p) { sink(p); }; void v@() { u@(1); u@(gstr); }", "void u@(const volatile int &p) { int a = p; sink(a); }", "void u@(const int &p, const int &q = 1) { sink(p); sink(q); }", "struct u@ { bool operator==(const u@ &p) const { return &p == this; } int a; };", "struct u@ { bool operator<(const u@ &p) const { return a < p.a; } int a; };", "void u@(const struct { int a; } &p);", "enum { Anon@ }; void u@(const int &p) { sink(p); }", "void u@(const QModelIndex &p) { sink(p); }", "void u@(const int && p) { sink(p); }", "void u@(const long long &p, const unsigned char &q) { sink(p); sink(q); }"} \ {"void u@(const struct { int a; } &p);"} }

MocTy == { <<"T t", "NS::T t">>, <<"T", "NS::T">>, <<"T *t", "NS::T *t">>, <<"const T &t", "const NS::T &t">>, <<"const T *t", "const NS::T *t">>, <<"E e", "NS::E e">>, <<"const T t", "const NS::T t">>, <<"T& t", "NS::T& t">>, <<"T* t", "NS::T* t">>, <<"T const &t", "NS::T const &t">>, <<"In::U u", "NS::In::U u">>, <<"L l", "NS::L l">>, <<"T t = T()", "NS::T t = T()">>,
            <<"QList<T> t", "QList<NS::T> t">>, <<"const QList<T> &t", "const QList<NS::T> &t">>, <<"QMap<int, T> t", "QMap<int, NS::T> t">>, <<"QList<T *> t", "QList<NS::T*> t">>, <<"F f", "NS::F f">>, <<"int i, T t", "int i, NS::T t">>, <<"T **t", "NS::T **t">>, <<"T *&t", "NS::T *&t">>, <<"T &&t", "NS::T &&t">>, <<"T * const t", "NS::T * const t">>, <<"QList<QList<T>> t", "QList<QList<NS::T>> t">>, <<"const QList<T>& t", "const QList<NS::T>& t">> }
MocSec == {"public Q_SLOTS: void f(", "Q_SIGNALS: void f(", "public: Q_INVOKABLE void f("}
Moc == UNION { {U("fully-qualified-moc-types", Both, "namespace NS { class u@ : public QObject { Q_OBJECT " \o s \o t[1] \o "); }; }", {"namespace NS { class u@ : public QObject { Q_OBJECT " \o s \o t[2] \o "); }; }"}, FALSE)} : t \in MocTy, s \in MocSec }
   \cup UNION { {U("fully-qualified-moc-types", Both, "namespace NS { class u@ : public QObject { Q_OBJECT public Q_SLOTS: " \o t[1] \o "f(); }; }", {"namespace NS { class u@ : public QObject { Q_OBJECT public Q_SLOTS: " \o t[2] \o "f(); }; }"}, FALSE)}
              : t \in {<<"T ", "NS::T ">>, <<"T *", "NS::T *">>, <<"const T &", "const NS::T &">>, <<"T* ", "NS::T* ">>, <<"E ", "NS::E ">>, <<"QList<T> ", "QList<NS::T> ">>, <<"const T ", "const NS::T ">>, <<"const T *", "const NS::T *">>, <<"virtual T ", "virtual NS::T ">>} }
   \cup UNION { Never("fully-qualified-moc-types", Both, "namespace NS { class u@ : public QObject { Q_OBJECT public Q_SLOTS: void f(" \o t \o "); }; }") : t \in {"NS::T t", "int i", "const NS::T &t", "QString s", "const QString &s", "QList<int> l", "NS::T *t", "QList<NS::T> t", "const char *c", "NS::In::U u", "Qt::Alignment a", "QMap<int, QString> m", "QObject *o"} }

OldArgs == { <<"SIGNAL(single(int))", "&Ov::single", "SLOT(slot(int))", "&Ov::slot">>, <<"SIGNAL(single(int))", "&Ov::single", "SLOT(slot0())", "&Ov::slot0">>, <<"SIGNAL(sig(int, QString))", "&Ov::sig", "SLOT(slot2(int, QString))", "&Ov::slot2">>, <<"SIGNAL(sig(int,const QString&))", "&Ov::sig", "SLOT(slot(int))", "&Ov::slot">>, <<"SIGNAL(none())", "&Ov::none", "SIGNAL(none())", "&Ov::none">>, <<"SIGNAL( none() )", "&Ov::none", "SLOT( slot0() )", "&Ov::slot0">> }
OldCtx == { <<"QObject::connect(po, ", ", po, ", ");", TRUE>>, <<"QObject::connect(po, ", ", po, ", ", Qt::QueuedConnection);", TRUE>>, <<"QObject::disconnect(po, ", ", po, ", ");", TRUE>>, <<"QObject::connect(&go, ", ", &go, ", ");", TRUE>>, <<"QObject::connect(fpov(), ", ", fpov(), ", ");", TRUE>>, <<"ID(QObject::connect(po, ", ", po, ", "));", FALSE>>, <<"if (gb) QObject::connect(po, ", ", po, ", ");", TRUE>> }
OldConnect == UNION { Line("old-style-connect", Both, "void u@() { " \o x[1] \o a[1] \o x[2] \o a[3] \o x[3] \o " }", "void u@() { " \o x[1] \o a[2] \o x[2] \o a[4] \o x[3] \o " }", x[4]) : a \in OldArgs, x \in OldCtx }
   \cup UNION { Line("old-style-connect", Both, "void u@() { " \o a[1] \o " }", "void u@() { " \o a[2] \o " }", FALSE)
              : a \in {<<"QTimer::singleShot(1, po, SLOT(slot0()));", "QTimer::singleShot(1, po, &Ov::slot0);">>, <<"QObject::connect(gqp, SIGNAL(none()), gqp, SLOT(slot0()));", "QObject::connect(gqp.data(), &Ov::none, gqp.data(), &Ov::slot0);">>, <<"QObject::connect(po, SIGNAL(none()), gqp, SLOT(slot0()));", "QObject::connect(po, &Ov::none, gqp.data(), &Ov::slot0);">>} }
   \cup UNION { May("old-style-connect", Both, x) : x \in {"void u@() { QObject::connect(po, SIGNAL(single(int)), po, SLOT(oslot(int))); }", "void u@() { QObject::connect(po, SIGNAL(over(int)), po, SLOT(slot(int))); }", "void u@() { QObject::connect(po, SIGNAL(none()), po, SLOT(slot(int))); }", "void u@() { QObject::connect(po, SIGNAL(none()), po, SLOT(pslot())); }", "void u@() { QObject::connect(po, SIGNAL(none()), po, SLOT(nosuch())); }", "void u@() { po->connect(po, SIGNAL(none()), SLOT(slot0())); }", "void u@() { go.connect(po, SIGNAL(none()), SLOT(slot0())); }", "struct u@ : Ov { u@() { connect(this, SIGNAL(none()), this, SLOT(pslot())); } };", "struct u@ : Ov { u@() { connect(this, SIGNAL(none()), SLOT(slot0())); } };", "struct u@ : Ov { u@() { connect(po, SIGNAL(none()), SLOT(slot0())); } };", "struct u@ : Ov { u@(Ov *x) { connect(x, SIGNAL(none()), x, SLOT(pslot())); } };", "namespace u@ { class W : public QObject { Q_OBJECT public Q_SLOTS: void w(); }; extern W *w; } void v@() { QObject::connect(po, SIGNAL(none()), u@::w, SLOT(w())); }",
                    "namespace u@ { class W : public QObject { Q_OBJECT public Q_SLOTS: void w(); }; extern W *w; void v() { QObject::connect(po, SIGNAL(none()), w, SLOT(w())); } }", "struct u@ { class W : public QObject { public: void w(); }; W *w; void g() { QObject::connect(po, SIGNAL(none()), w, SLOT(w())); } };", "void u@() { QObject::disconnect(po, SIGNAL(none()), nullptr, nullptr); }", "void u@() { po->disconnect(SIGNAL(none())); }", "void u@() { QObject::connect(po, SIGNAL(destroyed()), po, SLOT(deleteLater())); }", "void u@() { QObject::connect(po, SIGNAL(destroyed(QObject*)), po, SLOT(slot0())); }", "void u@() { QObject::connect(&gt, SIGNAL(timeout()), po, SLOT(slot0())); }", "void u@() { QObject::connect(pt, SIGNAL(timeout()), pt, SLOT(stop())); }", "void u@() { QObject::connect(gb ? po : &go, SIGNAL(none()), po, SLOT(slot0())); }", "void u@() { QObject::connect(po, SIGNAL(none()), gb ? po : &go, SLOT(slot0())); }", "void u@() { QObject *o = po; QObject::connect(o, SIGNAL(none()), po, SLOT(slot0())); }", "void u@() { QObject::connect(fqp(), SIGNAL(none()), po, SLOT(slot0())); }", "void u@() { QObject::connect(gvqp[0], SIGNAL(none()), po, SLOT(slot0())); }", "void u@() { QObject::connect(gs.qp, SIGNAL(none()), po, SLOT(slot0())); }"} }

AllocLit == {"\"x\"", "\"a\" \"b\"", "\"a\\\"b\"", "R\"(x)\"", "CMAC", "\"\""}
Alloc == UNION { May("qstring-allocations", Both, "void u@() { " \o x[1] \o l \o x[2] \o " }") : l \in AllocLit, x \in {<<"QString s = ", "; sink(s);">>, <<"QString s(", "); sink(s);">>, <<"QString s{", "}; sink(s);">>, <<"sink(QString(", "));">>, <<"fstr2(", ", 1);">>, <<"gstr = ", ";">>, <<"gstr += ", ";">>, <<"if (gstr == ", ") {}">>, <<"if (gstr != ", ") {}">>, <<"if (", " == gstr) {}">>, <<"sink(gstr + ", ");">>, <<"gstr.append(", ");">>, <<"sink(gb ? QString(", ") : gstr);">>, <<"sink(QString::fromLatin1(", "));">>, <<"sink(QString::fromUtf8(", "));">>, <<"sink(QString(QLatin1String(", ")));">>, <<"gstr = QLatin1String(", ");">>, <<"QString s = QLatin1String(", "); sink(s);">>, <<"fstr2(QLatin1String(", "), 1);">>,
                    <<"sink(gstr.startsWith(", "));">>, <<"sink(gstr.contains(", "));">>, <<"QStringList s{", "}; sink(s);">>, <<"QStringList s = {QLatin1String(", "), gstr}; sink(s);">>, <<"ID(gstr = ", ");">>, <<"gstr = ID(", ");">>, <<"[] { gstr = ", "; }();">>, <<"gstr = gb ? QLatin1String(", ") : QLatin1String(\"y\");">>, <<"fstr2(gb ? QLatin1String(", ") : QLatin1String(\"y\"), 1);">>, <<"QString s = gb ? QLatin1String(", ") : QLatin1String(\"y\"); sink(s);">>, <<"sink(QString::fromLatin1(", ", 1));">>, <<"tsl(QStringList() << ", ");">>, <<"tsl(QStringList() << QString::fromUtf8(", "));">>, <<"if (gstr < ", ") {}">>, <<"sink(pstr->indexOf(", "));">>, <<"if (*pstr == ", ") {}">>, <<"if (fstr() == ", ") {}">>, <<"if ((gb ? gstr : gstr2) == ", ") {}">>, <<"if (gstr + gstr2 == ", ") {}">>, <<"if (pstr[0] != ", ") {}">>, <<"QByteArray b = QString(", ").toUtf8(); sink(b);">>, <<"gstr = QString(", ").arg(1);">>, <<"gstr = QString ( ", " ).arg(1);">>, <<"gstr = QString{", "}.arg(1);">>, <<"gstr = ::QString(", ");">>, <<"gstr = gb ? ", " : \"y\";">>, <<"sink(gstr.replace(", ", \"y\"));">>, <<"return (void)(gstr == ", ");">>} }
   \cup UNION { May("qstring-allocations", Both, x) : x \in {"QString u@() { return \"x\"; }", "QString u@() { return QLatin1String(\"x\"); }", "struct u@ { QString s; u@() : s(\"x\") {} };", "struct u@ { QString s; u@() : s(QLatin1String(\"x\")) {} };", "struct u@ { QString s = \"x\"; };", "void u@(QString s = \"x\");", "void u@(QString s = QLatin1String(\"x\"));", "static const QString u@ = \"x\";", "static const QString u@(\"x\");", "static const QString u@[] = {\"x\", \"y\"};", "template <class T> void u@(T) { gstr = \"x\"; } template void u@(int); template void u@(char);", "QString u@() { return gb ? \"x\" : QString(); }", "QString u@() { return {\"x\"}; }", "void u@() { gstr = QString(QLatin1String(\"x\")).arg(1); }", "void u@() { throw QString(\"x\"); }", "void u@() { sink(QString(\"a\" \"b\")); }", "void u@() { gstr = \"a\" \"b\"; }", "void u@() { gstr = u8\"x\"; }"} }

MissQ == UNION { Line("missing-qobject-macro", Both, x[1], x[2], x[3])
               : x \in {<<"class u@ : public QObject {};", "class u@ : public QObject {\n\tQ_OBJECT};", TRUE>>, <<"class u@ : public QObject { int a; };", "class u@ : public QObject {\n\tQ_OBJECT int a; };", TRUE>>, <<"class u@ : public Ov { public: u@(int) {} };", "class u@ : public Ov {\n\tQ_OBJECT public: u@(int) {} };", TRUE>>,
                        <<"namespace u@ { class W : public QTimer { int a; }; }", "namespace u@ { class W : public QTimer {\n\tQ_OBJECT int a; }; }", TRUE>>, <<"class u@; class u@ : public QObject {};", "class u@; class u@ : public QObject {\n\tQ_OBJECT};", TRUE>>, <<"namespace { class u@ : public QObject {}; }", "namespace { class u@ : public QObject {\n\tQ_OBJECT}; }", TRUE>>,
                        <<"struct u@ : QObject { int a; }; int v@(u@ *x) { return x->a; }", "struct u@ : QObject {\n\tQ_OBJECT\npublic: int a; }; int v@(u@ *x) { return x->a; }", TRUE>>, <<"struct u@ : public QObject { u@() {} }; u@ *v@() { return new u@; }", "struct u@ : public QObject {\n\tQ_OBJECT\npublic: u@() {} }; u@ *v@() { return new u@; }", TRUE>>,
                        <<"struct u@ : private QObject { int a; private: int b; friend struct S; };", "struct u@ : private QObject {\n\tQ_OBJECT\npublic: int a; private: int b; friend struct S; };", TRUE>>,
                        <<"class u@ final : public QObject{ };", "class u@ final : public QObject{\n\tQ_OBJECT };", TRUE>>, <<"class [[deprecated]] u@ : public QObject { };", "class [[deprecated]] u@ : public QObject {\n\tQ_OBJECT };", TRUE>>, <<"ID(class u@ : public QObject {};)", "ID(class u@ : public QObject {\n\tQ_OBJECT};)", FALSE>>} }
   \cup UNION { May("missing-qobject-macro", Both, x) : x \in {"class u@ : public QObject { Q_DISABLE_COPY(u@) };", "template <class T> class u@ : public QObject {}; template <> class u@<int> : public QObject {};", "class u@ : public QObject { struct In { int a; }; In in; };"} }
   \cup UNION { Never("missing-qobject-macro", Both, x) : x \in {"void u@() { class L : public QObject { public: int a; }; L l; }", "auto u@ = [] { struct L : QObject {}; return new L; };", "struct u@ : public QObject { Q_OBJECT };", "struct u@ : public QObject { static void f() { struct In : QObject {}; } Q_OBJECT };", "class u@ : public QObject { Q_OBJECT };", "class u@ {};", "class u@;", "template <class T> class u@ : public QObject {}; extern u@<int> *v@;", "struct u@ { class W : public QObject {}; };", "class u@ : public QObject { int a; Q_OBJECT int b; };", "ID(class u@ : public QObject { Q_OBJECT };)"} }

(* files of their own, for what is added somewhere else in the file *)
F(c, b, A, m) == {U(c, Both, b, A, m)}
FUnits == F("use-chrono-in-qtimer", "#include <QTimer>\nvoid f(QTimer *t) { t->start(1000); }\n", {"#include <QTimer>\n#include <chrono>\n\nusing namespace std::chrono_literals;\nvoid f(QTimer *t) { t->start(1s); }\n"}, TRUE)
   \cup F("use-chrono-in-qtimer", "#include <QString>\n#include <QTimer>\nvoid f(QTimer *t) { t->start(1000); t->setInterval(20); }\n", {"#include <QString>\n#include <QTimer>\n#include <chrono>\n\nusing namespace std::chrono_literals;\nvoid f(QTimer *t) { t->start(1s); t->setInterval(20ms); }\n"}, TRUE)
   \cup F("use-chrono-in-qtimer", "#include <QTimer>\n#include <chrono>\nusing namespace std::chrono_literals;\nvoid f(QTimer *t) { t->start(1000); t->setInterval(20); }\n", {"#include <QTimer>\n#include <chrono>\nusing namespace std::chrono_literals;\nvoid f(QTimer *t) { t->start(1s); t->setInterval(20ms); }\n"}, TRUE)
   \cup F("use-chrono-in-qtimer", "#include <QTimer>\nint a;\n#include <QString>\nvoid f(QTimer *t) { t->start(1000); }\n", {"?"}, FALSE)
   \cup F("use-chrono-in-qtimer", "#include <QTimer> // timers\n\nvoid f(QTimer *t) { t->start(1000); }\n", {"?"}, FALSE)
   \cup F("missing-qobject-macro", "#include <QObject>\nclass A : public QObject {\n};\n", {"#include <QObject>\nclass A : public QObject {\n\tQ_OBJECT\n};\n\n#include \"@.moc\"\n"}, TRUE)
   \cup F("missing-qobject-macro", "#include <QObject>\nclass A : public QObject {\n};\nclass B : public A {\n};\n", {"#include <QObject>\nclass A : public QObject {\n\tQ_OBJECT\n};\nclass B : public A {\n\tQ_OBJECT\n};\n\n#include \"@.moc\"\n"}, TRUE)
   \cup F("missing-qobject-macro", "#include <QObject>\nclass A : public QObject {\n};\n#include \"@.moc\"\n", {"#include <QObject>\nclass A : public QObject {\n\tQ_OBJECT\n};\n#include \"@.moc\"\n"}, TRUE)
   \cup F("missing-qobject-macro", "#include <QObject>\nclass A : public QObject {\n};\n#include \"other.moc\"\n", {"#include <QObject>\nclass A : public QObject {\n\tQ_OBJECT\n};\n#include \"other.moc\"\n\n#include \"@.moc\"\n"}, TRUE)
   \cup F("missing-qobject-macro", "#include <QObject>\nclass A : public QObject {\n    Q_OBJECT\n};\n", {}, FALSE)

BUnits == QStringArg \cup AutoBuilder \cup RangeDetach \cup RangeRef \cup QStringRef \cup Inline \cup Poly \cup UseChrono \cup Keywords \cup Connects \cup ListInit \cup ByRef \cup ByVal \cup Moc \cup OldConnect \cup Alloc \cup MissQ
Units == AUnits \cup BUnits

(* ---- the life of a unit ---- *)
VARIABLES unit, phase, text, proposed, silenced
vars == <<unit, phase, text, proposed, silenced>>
(* a line with a suppression of the check behind it proposes nothing *)
Write(u, s) == unit = u /\ phase = "written" /\ text = u.text /\ proposed = FALSE /\ silenced = s
Run(p) == /\ phase = "written" /\ phase' = "run" /\ proposed' = p
          /\ p => unit.after # {} /\ ~silenced
          /\ ~p => ~unit.must \/ silenced
          /\ UNCHANGED <<unit, text, silenced>>
(* only a fix-it that was proposed and chosen changes the text, and only to what the rule says *)
Apply(chosen, t) == /\ phase = "run" /\ phase' = "applied"
                    /\ IF chosen /\ proposed THEN t # text /\ ("?" \in unit.after \/ t \in unit.after) ELSE t = text
                    /\ text' = t /\ UNCHANGED <<unit, proposed, silenced>>
(* what was not applied is proposed again; what was is not, unless the new text is one that the rules change further *)
Sub(w, t) == \E i \in 1..(Len(t) - Len(w) + 1) : SubSeq(t, i, i + Len(w) - 1) = w
Further(c, t) == IF c = "qstring-allocations" THEN Sub("QLatin1String(", t) ELSE \E u \in Units : u.check = c /\ u.text = t /\ u.after # {}
Rerun(p, compiles) == /\ phase = "applied" /\ phase' = "rerun"
                      /\ compiles
                      /\ IF text = unit.text THEN p = proposed ELSE p => Further(unit.check, text)
                      /\ proposed' = p /\ UNCHANGED <<unit, text, silenced>>
=============================================================================
