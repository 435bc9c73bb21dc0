------------------------------ MODULE Sections ------------------------------
(***************************************************************************)
(* C12.  A translation unit is read item by item, as moc reads it.  The    *)
(* stack holds the class bodies that are open, each with the section its   *)
(* next member falls into; every method is given its kind when it is met.  *)
(* The dependent checks are functions of that kind (Reports, UseReports).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt, TLC, Json, IOUtils

VARIABLES inp,     \* [items: sequence of items, uses: sequence of uses]
          pos,     \* items read
          stack,   \* open bodies, innermost last: [kind, sec, cls]
          out      \* the methods met: [id, cls, name, type, scr, virt, cst, void, level]
vars == <<inp, pos, stack, out>>

(* items: class(cls, base, body) end | access | slots | signals | method(..) | other | friend | nest unnest | body bodyend *)
StartWith(x) == inp = x /\ pos = 0 /\ stack = <<>> /\ out = <<>>
Restart(x) == inp' = x /\ pos' = 0 /\ stack' = <<>> /\ out' = <<>>

Top == stack[Len(stack)]
SetSec(s) == stack' = [stack EXCEPT ![Len(stack)].sec = s]
Push(kind, sec, cls) == stack' = Append(stack, [kind |-> kind, sec |-> sec, cls |-> cls])
Pop == stack' = SubSeq(stack, 1, Len(stack) - 1)

(* moc: a section decides; only outside of one a method's own marks do *)
Moc(sec, marks) == IF sec \in {"signal", "slot"} THEN sec
                   ELSE IF "SIGNAL" \in marks THEN "signal"
                   ELSE IF "SLOT" \in marks THEN "slot"
                   ELSE IF marks \cap {"INVOKABLE", "SCRIPTABLE"} # {} THEN "invokable"
                   ELSE "none"
(* clazy, the same; but Q_INVOKABLE without Q_SIGNAL or Q_SLOT takes a member of a section out of the rules for signals and slots *)
Kind(sec, marks) == IF sec # "none" /\ "INVOKABLE" \in marks /\ marks \cap {"SIGNAL", "SLOT"} = {} THEN "invokable" ELSE Moc(sec, marks)
Met(m) == [id |-> m.id, cls |-> Top.cls, name |-> m.name, virt |-> m.virt, cst |-> m.cst, void |-> m.void, byname |-> m.byname,
           scr |-> "SCRIPTABLE" \in Range(m.marks), type |-> IF Top.kind \in {"object", "gadget"} THEN Kind(Top.sec, Range(m.marks)) ELSE "none",
           moc |-> IF Top.kind \in {"object", "gadget"} THEN Moc(Top.sec, Range(m.marks)) ELSE "none"]

(* what moc accepts *)
Legal(i) ==
  CASE i.k = "class" -> stack = <<>>
    [] i.k = "end" -> stack # <<>> /\ Top.kind \in {"object", "gadget", "plain"}
    [] i.k = "access" -> stack # <<>>
    [] i.k \in {"slots", "signals"} -> stack # <<>> /\ Top.kind \in {"object", "local", "plain"}    \* moc ignores a plain class
    [] i.k = "method" -> /\ stack # <<>>
                         /\ Top.sec = "slot" => "SIGNAL" \notin Range(i.marks)
                         /\ Top.sec = "signal" => "SLOT" \notin Range(i.marks) \/ "INVOKABLE" \notin Range(i.marks)
                         /\ {"SIGNAL", "SLOT"} \subseteq Range(i.marks) => FALSE
                         /\ Top.kind = "gadget" => Range(i.marks) \cap {"SIGNAL", "SLOT"} = {}
                         /\ Top.kind \in {"nested", "local", "plain"} => i.marks = <<>>
    [] i.k = "other" -> stack # <<>> /\ Top.sec = "none" /\ Top.kind # "local"
    [] i.k = "friend" -> stack # <<>> /\ Top.kind # "local"
    [] i.k = "nest" -> stack # <<>> /\ Top.sec = "none" /\ Top.kind \in {"object", "gadget", "nested"}
    [] i.k = "unnest" -> stack # <<>> /\ Top.kind = "nested"
    [] i.k = "body" -> stack # <<>> /\ Top.kind = "object" /\ Top.sec = "slot"     \* a slot with a local class in its body
    [] i.k = "bodyend" -> stack # <<>> /\ Top.kind = "local"
    [] OTHER -> FALSE

Apply(i) ==
  /\ Legal(i)
  /\ CASE i.k = "class" -> Push(i.body, "none", i.cls) /\ UNCHANGED out
       [] i.k = "access" -> SetSec("none") /\ UNCHANGED out
       [] i.k = "slots" -> SetSec("slot") /\ UNCHANGED out
       [] i.k = "signals" -> SetSec("signal") /\ UNCHANGED out
       [] i.k = "method" -> out' = (IF Top.kind = "local" THEN out ELSE Append(out, Met(i))) /\ UNCHANGED stack     \* moc doesn't look into bodies
       [] i.k \in {"other", "friend"} -> UNCHANGED <<out, stack>>
       [] i.k = "nest" -> Push("nested", "none", 0) /\ UNCHANGED out
       [] i.k = "body" -> out' = Append(out, Met(i)) /\ Push("local", "none", 0)
       [] i.k \in {"end", "unnest", "bodyend"} -> Pop /\ UNCHANGED out
Read == /\ pos < Len(inp.items)
        /\ Apply(inp.items[pos + 1])
        /\ pos' = pos + 1
        /\ UNCHANGED inp
Done == pos = Len(inp.items)

-----------------------------------------------------------------------------
(* the dependent checks *)
Class(c) == LET k == {n \in DOMAIN inp.items : inp.items[n].k = "class" /\ inp.items[n].cls = c} IN inp.items[CHOOSE n \in k : TRUE]
Received(m) == \E n \in DOMAIN inp.uses : inp.uses[n].id = m.id /\ inp.uses[n].use = "receive"
Base(c) == Class(c).base
RECURSIVE Bases(_)
Bases(c) == IF c <= 0 THEN <<>> ELSE LET b == Base(c) IN IF b <= 0 THEN <<>> ELSE <<b>> \o Bases(b)
Same(m, c) == SelectSeq(out, LAMBDA r : r.cls = c /\ r.name = m.name)
Inherited(m) == IF m.cls = 0 THEN <<>> ELSE LET b == Bases(m.cls) IN FoldLeft(LAMBDA a, c : a \o Same(m, c), <<>>, b)
Virtual(m) == m.virt \/ \E k \in DOMAIN Inherited(m) : Inherited(m)[k].virt /\ Inherited(m)[k].cst = m.cst
Overrides(m) == \E k \in DOMAIN Inherited(m) : m.type = "signal" \/ Inherited(m)[k].type = "signal"

Reports(m) ==
  (IF m.type # "none" THEN {"fully-qualified-moc-types " \o m.type} ELSE {})
  \cup (IF m.type = "signal" /\ Virtual(m) THEN {"virtual-signal"} ELSE {})
  \cup (IF m.cst /\ ~m.scr /\ (m.type = "signal" \/ (m.type = "slot" /\ ~m.void)) THEN {"const-signal-or-slot"} ELSE {})
  \cup (IF m.type = "signal" /\ ~m.scr /\ ~m.void THEN {"signal-with-return-value"} ELSE {})
  \cup (IF m.type = "slot" /\ m.byname THEN {"connect-by-name"} ELSE {})
  \cup (IF m.cls > 0 /\ Class(m.cls).thread /\ Received(m) /\ m.type \notin {"slot", "signal"} THEN {"thread-with-slots"} ELSE {})
  \cup (IF Overrides(m) THEN {"overridden-signal"} ELSE {})
ById(i) == out[CHOOSE k \in DOMAIN out : out[k].id = i]
UseReports(u) ==
  LET m == ById(u.id) IN
  CASE u.use = "emit" -> IF m.type # "signal" THEN {"incorrect-emit"} ELSE {}
    [] u.use = "call" -> IF m.type = "signal" THEN {"incorrect-emit"} ELSE {}
    [] u.use = "connect" -> IF m.type # "signal" THEN {"connect-non-signal"} ELSE {}
    [] u.use = "receive" -> IF m.cst /\ ~m.void /\ m.type \notin {"slot", "signal"} THEN {"const-signal-or-slot"} ELSE {}
    [] u.use = "define" -> IF m.type = "slot" /\ Class(m.cls).thread THEN {"thread-with-slots"} ELSE {}    \* out of line, the body writes a member

-----------------------------------------------------------------------------
(* The same classification said without the stack: the last specifier at the method's own depth since its body was opened. *)
Opens == {"class", "nest", "body"}
Closes == {"end", "unnest", "bodyend"}
Depth(n) == Cardinality({k \in 1..n : inp.items[k].k \in Opens}) - Cardinality({k \in 1..n : inp.items[k].k \in Closes})
Opened(n) == LET o == {k \in 1..(n-1) : inp.items[k].k \in Opens /\ Depth(k) = Depth(n - 1)} IN CHOOSE k \in o : \A j \in o : j <= k
Specs == [access |-> "none", slots |-> "slot", signals |-> "signal"]
SectionAt(n) == LET s == {k \in (Opened(n)+1)..(n-1) : inp.items[k].k \in DOMAIN Specs /\ Depth(k) = Depth(n - 1)}
                IN IF s = {} THEN "none" ELSE Specs[inp.items[CHOOSE k \in s : \A j \in s : j <= k].k]
InvLastSpecifier ==
  \A n \in 1..pos : inp.items[n].k \in {"method", "body"} /\ inp.items[Opened(n)].k # "body" =>
    LET r == ById(inp.items[n].id) IN
    IF inp.items[Opened(n)].k # "class" \/ inp.items[Opened(n)].body = "plain" THEN r.type = "none" ELSE r.type = Kind(SectionAt(n), Range(inp.items[n].marks))
(* a mark speaks for its own method only: taking all marks away changes no other method *)
InvMarksAreLocal ==
  \A n \in 1..pos : inp.items[n].k = "method" /\ inp.items[n].marks = <<>> /\ inp.items[Opened(n)].k # "body" => ById(inp.items[n].id).type \in {"none", SectionAt(n)}
(* clazy and moc differ on nothing else *)
InvMoc == \A k \in DOMAIN out : out[k].type # out[k].moc => out[k].type = "invokable" /\ out[k].moc \in {"signal", "slot"}
(* every dependent verdict about signals needs a signal *)
InvDependent == \A k \in DOMAIN out : out[k].type = "none" => Reports(out[k]) \subseteq {"overridden-signal"}
=============================================================================
