------------------------------- MODULE Filter -------------------------------
(***************************************************************************)
(* C04.  Which files' warnings are shown: header filter, ignored           *)
(* directories, system headers, the main file.  Candidates are met one by  *)
(* one; each passes through the stages in the order the tool applies them. *)
(* A pattern is a sequence of alternatives; an alternative is              *)
(* [bol, eol, items], an item is [c, any, star].  <<>> means "not given".  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt, TLC, Json, IOUtils

RECURSIVE Here(_, _, _, _)
(* items from i on match s from position j on (to the end if eol) *)
Here(alt, i, s, j) ==
  IF i > Len(alt.items) THEN ~alt.eol \/ j > Len(s)
  ELSE LET it == alt.items[i]
           one == j <= Len(s) /\ (it.any \/ SubSeq(s, j, j) = it.c)
       IN IF it.star THEN Here(alt, i + 1, s, j) \/ (one /\ Here(alt, i, s, j + 1))
          ELSE one /\ Here(alt, i + 1, s, j + 1)
Search(p, s) == \E a \in DOMAIN p : \E j \in 1..(IF p[a].bol THEN 1 ELSE Len(s) + 1) : Here(p[a], 1, s, j)

(* a candidate warning: the name of its file, and where that file comes from *)
VARIABLES cands,     \* sequence of [name, kind \in {"main","header","system"}]
          hfOpt, hfEnv, ignOpt, ignEnv, \* patterns by option and by environment variable
          hf, ign,   \* the ones in force
          i, stage, shown
vars == <<cands, hfOpt, hfEnv, ignOpt, ignEnv, hf, ign, i, stage, shown>>

StartWith(c, a, b, x, y) ==
  /\ cands = c /\ hfOpt = a /\ hfEnv = b /\ ignOpt = x /\ ignEnv = y
  /\ hf = <<>> /\ ign = <<>> /\ i = 1 /\ stage = "configure" /\ shown = {}

Configure ==
  /\ stage = "configure"
  /\ hf' = IF hfOpt # <<>> THEN hfOpt ELSE hfEnv
  /\ ign' = IF ignOpt # <<>> THEN ignOpt ELSE ignEnv
  /\ stage' = IF cands = <<>> THEN "done" ELSE "visit"
  /\ UNCHANGED <<cands, hfOpt, hfEnv, ignOpt, ignEnv, i, shown>>

C == cands[i]
Drop == /\ i' = i + 1
        /\ stage' = IF i = Len(cands) THEN "done" ELSE "visit"
        /\ UNCHANGED <<cands, hfOpt, hfEnv, ignOpt, ignEnv, hf, ign, shown>>
GoOn(s) == stage' = s /\ UNCHANGED <<cands, hfOpt, hfEnv, ignOpt, ignEnv, hf, ign, i, shown>>

(* code of system headers is not handed to the checks at all *)
Visit == stage = "visit" /\ IF C.kind = "system" THEN Drop ELSE GoOn("ignored")
Ignored == stage = "ignored" /\ IF ign # <<>> /\ Search(ign, C.name) THEN Drop ELSE GoOn("filter")
HeaderFilter == stage = "filter" /\ IF hf # <<>> /\ C.kind # "main" /\ ~Search(hf, C.name) THEN Drop ELSE GoOn("show")
Show == /\ stage = "show" /\ i' = i + 1 /\ shown' = shown \union {i}
        /\ stage' = IF i = Len(cands) THEN "done" ELSE "visit"
        /\ UNCHANGED <<cands, hfOpt, hfEnv, ignOpt, ignEnv, hf, ign>>
Next == Configure \/ Visit \/ Ignored \/ HeaderFilter \/ Show

(***************************** the property ******************************)
Done == stage = "done"
Eff(o, e) == IF o = <<>> THEN e ELSE o
Visible(c) ==
  /\ c.kind # "system"
  /\ Eff(ignOpt, ignEnv) = <<>> \/ ~Search(Eff(ignOpt, ignEnv), c.name)
  /\ c.kind = "main" \/ Eff(hfOpt, hfEnv) = <<>> \/ Search(Eff(hfOpt, hfEnv), c.name)
InvExact == Done => shown = {k \in DOMAIN cands : Visible(cands[k])}
InvSystem == \A k \in shown : cands[k].kind # "system"
InvMain == Done => \A k \in DOMAIN cands : cands[k].kind = "main" /\ ign = <<>> => k \in shown
InvNoFilter == Done /\ hf = <<>> /\ ign = <<>> => shown = {k \in DOMAIN cands : cands[k].kind # "system"}
InvSameFile == Done => \A k, m \in DOMAIN cands : cands[k] = cands[m] => (k \in shown) = (m \in shown)
InvIgnoreWins == Done => \A k \in shown : ign = <<>> \/ ~Search(ign, cands[k].name)
=============================================================================
