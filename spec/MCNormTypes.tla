---------------------------- MODULE MCNormTypes ----------------------------
(* The meaning of a type, and that the normalisation of its text, however spaced, is it. *)
EXTENDS Normalize
P == JsonDeserialize(IOEnv.PARAMS)
(* [cv: none, pre, post; base: words; args; ptr: sequence of * and *const; ref] *)
T0 == [cv : Range(P.cv), base : Range(P.base), args : {<<>>}, ptr : Range(P.ptr), ref : Range(P.ref)]
T1 == [cv : Range(P.cv1), base : {<<"V">>}, args : {<<a>> : a \in T0} \cup {<<[cv |-> "none", base |-> <<"A">>, args |-> <<>>, ptr |-> <<>>, ref |-> ""], a>> : a \in T0}, ptr : Range(P.ptr1), ref : Range(P.ref1)]
T2 == [cv : Range(P.cv1), base : {<<"V">>}, args : {<<a>> : a \in {b \in T1 : Len(b.args) = 1}}, ptr : {<<>>, <<"*">>}, ref : {"", "&"}]
Types == T0 \cup T1 \cup (IF P.deep THEN T2 ELSE {})

(* spacing: none but what is needed, one blank wherever there may be one, something else *)
RECURSIVE Toks(_, _), ArgToks(_, _, _)
Sp(sp) == CASE sp = 0 -> <<>> [] sp = 1 -> <<" ">> [] sp = 2 -> <<"\t">>
Toks(t, sp) == (IF t.cv = "pre" THEN <<"const", " ">> ELSE <<>>) \o t.base
               \o (IF t.args = <<>> THEN <<>> ELSE <<"<">> \o Sp(sp) \o ArgToks(t.args, 1, sp) \o Sp(sp) \o <<">">>)
               \o (IF t.cv = "post" THEN (IF t.args = <<>> THEN <<" ">> ELSE Sp(sp)) \o <<"const">> ELSE <<>>)
               \o (IF sp > 0 /\ (t.ptr # <<>> \/ t.ref # "") THEN Sp(sp) ELSE <<>>)
               \o FoldLeft(LAMBDA a, p : a \o (IF p = "*const" THEN <<"*">> \o Sp(sp) \o <<"const">> ELSE <<"*">>), <<>>, t.ptr)
               \o (CASE t.ref = "" -> <<>> [] t.ref = "&" -> Sp(IF t.ptr = <<>> THEN 0 ELSE sp) \o <<"&">> [] t.ref = "&&" -> <<"&", "&">>)
ArgToks(as, i, sp) == IF i > Len(as) THEN <<>> ELSE (IF i > 1 THEN <<",">> \o Sp(sp) ELSE <<>>) \o Toks(as[i], sp) \o ArgToks(as, i + 1, sp)

(* the meaning *)
Name(b) == CASE b = <<"unsigned">> -> "uint" [] b = <<"unsigned", " ", "int">> -> "uint" [] b = <<"unsigned", " ", "long">> -> "ulong"
             [] Len(b) = 3 /\ b[1] \in {"struct", "class", "enum"} -> b[3]
             [] OTHER -> Join(b)
RECURSIVE Mean(_, _), Means(_, _)
Means(as, i) == IF i > Len(as) THEN "" ELSE (IF i > 1 THEN "," ELSE "") \o Mean(as[i], FALSE) \o Means(as, i + 1)
Mean(t, top) ==
  LET cst == t.cv # "none"
      args == Means(t.args, 1)
      body == Name(t.base) \o (IF t.args = <<>> THEN "" ELSE "<" \o args \o (IF SubSeq(args, Len(args), Len(args)) = ">" THEN " >" ELSE ">"))
      last == IF t.ptr = <<>> THEN "" ELSE t.ptr[Len(t.ptr)]
      (* a constant value, a reference to const, and what ends in *const, are values outermost *)
      drop == cst /\ top /\ (t.ref # "" \/ t.ptr = <<>> \/ last = "*const")
      ref == IF drop /\ t.ref # "" THEN SubSeq(t.ref, 2, Len(t.ref)) ELSE t.ref
      both == top /\ ref # "" /\ last = "*const"
  IN (IF cst /\ ~drop THEN "const " ELSE "") \o body \o Join(IF both THEN [t.ptr EXCEPT ![Len(t.ptr)] = "*"] ELSE t.ptr)
     \o (IF both THEN SubSeq(ref, 2, Len(ref)) ELSE ref)
(* Qt's own oddity: a const behind template arguments, or behind a word that begins with :: *)
RECURSIVE Plain(_)
Plain(t) == ~(t.cv = "post" /\ t.args # <<>>) /\ \A i \in DOMAIN t.args : Plain(t.args[i])

VARIABLES ty, sp
Init == /\ ty \in Types /\ sp \in 0..2
        /\ \E k \in {"type", "sig"} : Reset([kind |-> k, toks |-> IF k = "sig" THEN <<"1f", "(">> \o Toks(ty, sp) \o <<")">> ELSE Toks(ty, sp)])
Spec == Init /\ [][Read /\ UNCHANGED <<ty, sp>>]_<<vars, ty, sp>>
Wanted == IF inp.kind = "sig" THEN "1f(" \o Mean(ty, TRUE) \o ")" ELSE Mean(ty, TRUE)
InvMeaning == Done /\ Plain(ty) => out = Wanted
(* the suggestion is itself normal: what is a value stays so *)
Again(t) == [t EXCEPT !.cv = IF t.cv = "post" THEN "pre" ELSE t.cv]
InvConstPlace == Done /\ Plain(ty) => Mean(ty, TRUE) = Mean(Again(ty), TRUE)
Emit == Done => PrintT("@" \o ToJson(<<inp.kind, Original(inp), Report(inp, out)>>))
=============================================================================
