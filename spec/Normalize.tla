----------------------------- MODULE Normalize -----------------------------
(***************************************************************************)
(* C13.  What Qt's QMetaObject makes of a signature or a type, over the    *)
(* tokens of its text: words, blanks and single characters.  A signature   *)
(* is read left to right; whatever stands between its outermost            *)
(* parentheses is normalised as a type, argument by argument.              *)
(* MCNormTypes holds this against the meaning of the types.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt, TLC, Json, IOUtils

VARIABLES inp,     \* [kind: "sig" or "type", toks: the text]
          text,    \* its tokens without the blanks that do not count
          pos, arg, templ, out, over
vars == <<inp, text, pos, arg, templ, out, over>>

Blanks == {" ", "  ", "\t", " \t ", "   "}
Symbols == {"<", ">", "(", ")", "[", "]", "{", "}", ",", ":", "*", "&", "=", ".", "+", "-", "!", "/", ";", "~", "|"}
IsBlank(t) == t \in Blanks
IsWord(t) == t # "" /\ t \notin Blanks \cup Symbols
Join(s) == FoldLeft(LAMBDA a, b : a \o b, "", s)
At(s, i, after) == IF i <= Len(s) THEN s[i] ELSE after
From(s, i) == SubSeq(s, i, Len(s))

(* blanks disappear, but between two words, and between < and : *)
RECURSIVE Squeeze(_, _, _)
Squeeze(s, i, o) ==
  IF i > Len(s) THEN o
  ELSE IF ~IsBlank(s[i]) THEN Squeeze(s, i + 1, Append(o, s[i]))
  ELSE IF o # <<>> /\ i < Len(s) /\ ((IsWord(o[Len(o)]) /\ IsWord(s[i + 1])) \/ (o[Len(o)] = "<" /\ s[i + 1] = ":"))
       THEN Squeeze(s, i + 1, Append(o, " "))
       ELSE Squeeze(s, i + 1, o)
Text(x) == Squeeze(x.toks, 1, <<>>)

(* where `X const' becomes `const X': the first const before any &, * or <; 0 if there is none *)
RECURSIVE Trailing(_, _)
Trailing(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = "const" THEN i ELSE IF s[i] \in {"&", "*", "<"} THEN 0 ELSE Trailing(s, i + 1)
MoveConst(s, i) == <<"const", " ">> \o SubSeq(s, 1, IF s[i - 1] = " " THEN i - 2 ELSE i - 1) \o From(s, i + 1)
StartsConst(s) == Len(s) >= 2 /\ s[1] = "const" /\ s[2] = " "
(* at the outermost level, a value or a reference to const is a value *)
Adjust(s) == IF ~(StartsConst(s) /\ Len(s) > 2) THEN s
             ELSE LET l == s[Len(s)] IN IF l = "&" THEN SubSeq(s, 3, Len(s) - 1)
                                        ELSE IF IsWord(l) \/ l = ">" THEN From(s, 3) ELSE s
(* [skip: tokens replaced, by: their replacement] *)
Synonym(s, after) ==
  LET w(i) == IF At(s, i, "") = " " THEN At(s, i + 1, "") ELSE ""
      keep == [skip |-> 0, by |-> ""] IN
  IF Len(s) = 0 THEN keep
  ELSE IF s[1] = "unsigned"
       THEN CASE w(2) = "int" -> [skip |-> 3, by |-> "uint"]
              [] w(2) = "long" -> IF w(4) \in {"int", "long"} THEN keep ELSE [skip |-> 3, by |-> "ulong"]
              [] w(2) \in {"short", "char"} -> keep
              [] OTHER -> [skip |-> 1, by |-> "uint"]
  ELSE IF s[1] \in {"struct", "class", "enum"} /\ At(s, 2, "") = " " THEN [skip |-> 2, by |-> ""]
  ELSE keep

RECURSIVE NormType(_, _, _), Rest(_, _, _, _, _, _), Args(_, _, _, _, _, _, _)
(* s: the type; after: the token behind it; adjust: outermost level *)
NormType(s, after, adjust) ==
  LET k == Trailing(s, 2)
      s1 == IF k > 0 THEN MoveConst(s, k) ELSE s
      a == IF k > 0 THEN "" ELSE after
      s2 == IF adjust THEN Adjust(s1) ELSE s1
      a2 == IF Len(s2) > 0 /\ Len(s2) = Len(s1) - 3 THEN "&" ELSE a
      c == StartsConst(s2)
      s3 == IF c THEN From(s2, 3) ELSE s2
      y == Synonym(s3, a2)
  IN Rest(From(s3, y.skip + 1), 1, (IF c THEN "const " ELSE "") \o y.by, FALSE, a2, adjust)
(* from token i on; star: there was a * *)
Rest(s, i, o, star, after, adjust) ==
  IF i > Len(s) THEN o
  ELSE LET st == star \/ s[i] = "*"
           r == IF s[i] = "<" THEN Args(s, i + 1, i + 1, 1, 0, o \o "<", after) ELSE [i |-> i + 1, o |-> o \o s[i], c |-> s[i]]
           j == r.i + 1
           k == IF At(s, j, "") = " " THEN j + 1 ELSE j
       IN IF ~(~IsWord(r.c) /\ At(s, r.i, "") = "const") THEN Rest(s, r.i, r.o, st, after, adjust)
          ELSE IF adjust /\ At(s, k, "") = "&" THEN Rest(s, k + 1, r.o, st, after, adjust)
          ELSE IF adjust /\ ~st THEN Rest(s, k, r.o, st, after, adjust)
          ELSE IF ~st THEN Rest(s, k, "const " \o r.o, st, after, adjust)
          ELSE Rest(s, k, r.o \o "const", st, after, adjust)
(* template arguments, from b on; an unfinished list is lost *)
Args(s, i, b, depth, scope, o, after) ==
  IF i > Len(s) THEN [i |-> i, o |-> o, c |-> IF i > b THEN s[Len(s)] ELSE "<"]
  ELSE LET c == s[i]
           sc == scope + (IF c \in {"{", "(", "["} THEN 1 ELSE IF c \in {"}", ")", "]"} THEN -1 ELSE 0)
           d == IF sc # 0 THEN depth ELSE IF c = "<" THEN depth + 1 ELSE IF c = ">" THEN depth - 1 ELSE depth
       IN IF sc = 0 /\ (d = 0 \/ (d = 1 /\ c = ","))
          THEN LET o2 == o \o NormType(SubSeq(s, b, i - 1), c, FALSE) \o c IN
               IF d = 0 THEN [i |-> i + 1, o |-> o2 \o (IF At(s, i + 1, after) = ">" THEN " " ELSE ""), c |-> c]
               ELSE Args(s, i + 1, i + 1, d, sc, o2, after)
          ELSE Args(s, i + 1, b, d, sc, o, after)

(* the end of an argument, and the nesting of templates there *)
RECURSIVE ArgEnd(_, _, _)
ArgEnd(s, i, d) == IF i > Len(s) \/ (d = 0 /\ s[i] \in {",", ")"}) THEN [i |-> i, d |-> d]
                   ELSE ArgEnd(s, i + 1, IF s[i] = "<" THEN d + 1 ELSE IF s[i] = ">" THEN d - 1 ELSE d)
ArgText(s, b, e) == IF SubSeq(s, b, e - 1) = <<"void">> /\ At(s, e, "") = ")" THEN ""
                    ELSE NormType(SubSeq(s, b, e - 1), At(s, e, ""), TRUE)

(***************************************************************************)
Original(x) == Join(x.toks)
Reset(x) == inp = x /\ text = Text(x) /\ pos = 1 /\ arg = 0 /\ templ = 0 /\ out = "" /\ over = FALSE
Restart(x) == inp' = x /\ text' = Text(x) /\ pos' = 1 /\ arg' = 0 /\ templ' = 0 /\ out' = "" /\ over' = FALSE
Type == /\ ~over /\ inp.kind = "type"
        /\ LET s == text IN out' = ArgText(s, 1, ArgEnd(s, 1, 0).i)
        /\ over' = TRUE /\ UNCHANGED <<inp, text, pos, arg, templ>>
(* one character of a signature, after the argument before it if there is one *)
Char == /\ ~over /\ inp.kind = "sig"
        /\ LET s == text
               a == IF arg = 1 THEN ArgEnd(s, pos, templ) ELSE [i |-> pos, d |-> templ]
               o == IF arg = 1 THEN out \o ArgText(s, pos, a.i) ELSE out
           IN /\ pos <= Len(s)
              /\ templ' = a.d
              /\ IF a.i > Len(s) THEN pos' = a.i /\ out' = o /\ UNCHANGED arg
                 ELSE /\ pos' = a.i + 1 /\ out' = o \o s[a.i]
                      /\ arg' = CASE s[a.i] = "(" -> arg + 1 [] s[a.i] = ")" -> arg - 1 [] OTHER -> arg
        /\ UNCHANGED <<inp, text, over>>
End == ~over /\ inp.kind = "sig" /\ pos > Len(text) /\ over' = TRUE /\ UNCHANGED <<inp, text, pos, arg, templ, out>>
Read == Type \/ Char \/ End
Done == over

(* what clazy says of it: nothing, or the two texts, a signature without the code of its kind *)
Cut(x, t) == IF x.kind = "sig" THEN SubSeq(t, 2, Len(t)) ELSE t
Report(x, t) == IF t = Original(x) THEN <<>> ELSE <<Cut(x, t), Cut(x, Original(x))>>
=============================================================================
