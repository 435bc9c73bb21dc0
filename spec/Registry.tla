----------------------------- MODULE Registry -----------------------------
(***************************************************************************)
(* C16.  One registry, many ways to ask about it.  A registry is a         *)
(* sequence of [name, level, fixits, doc]; level 3 is the manual one.      *)
(* Whatever is asked, in whatever order, the answer is a function of it.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt, TLC, Json, IOUtils

VARIABLES reg, query, answer
vars == <<reg, query, answer>>

Recs == Range(reg)
Names == {r.name : r \in Recs}
Of(n) == CHOOSE r \in Recs : r.name = n
FixOwner(f) == (CHOOSE r \in Recs : f \in Range(r.fixits)).name
Fixes == UNION {Range(r.fixits) : r \in Recs}
UpTo(l) == {r.name : r \in {x \in Recs : x.level <= l}}
HasFix == {n \in Names : Of(n).fixits # <<>>}

(* what a request, a set of words, enables: levels include those below; a fix-it its check; no-X wins.  Nothing: the default level *)
Lv(w) == CASE w = "level0" -> 0 [] w = "level1" -> 1 [] w = "level2" -> 2 [] OTHER -> -1
Enabled(ws) ==
  LET on == UNION {IF Lv(w) >= 0 THEN UpTo(Lv(w)) ELSE IF w \in Names THEN {w} ELSE IF w \in Fixes THEN {FixOwner(w)} ELSE {} : w \in ws}
      off == {n \in Names : "no-" \o n \in ws}
  IN (IF ws = {} THEN UpTo(1) ELSE on) \ off

(* the views; each answer is a set *)
Answer(q) ==
  CASE q.view \in {"json", "readme"} -> {<<r.name, r.level, Range(r.fixits)>> : r \in Recs}
    [] q.view = "help" -> {<<r.name, r.level, Range(r.fixits)>> : r \in {x \in Recs : x.level <= 2}}   \* by design without the manual ones
    [] q.view \in {"tidy", "docs", "owns"} -> Names   \* owns: the checks that report on code written for them
    [] q.view \in {"levels", "installed"} -> {<<r.name, r.level>> : r \in Recs}
    [] q.view = "readmelevels" -> {<<r.name, r.level>> : r \in {x \in Recs : x.level <= 2}}
    [] q.view = "explain" -> LET m == {r \in Recs : r.name = q.what} IN {<<r.name, r.level>> : r \in m}
    [] q.view = "list" -> Enabled(Range(q.words))
    [] q.view = "runs" -> Enabled(Range(q.words)) \cap Range(q.present)   \* the checks that report something about code with something for the present ones
    [] q.view = "fixes" -> HasFix \cap Range(q.present)

Reset(r) == reg = r /\ query = [view |-> "none"] /\ answer = {}
Ask(q) == query' = q /\ answer' = Answer(q) /\ UNCHANGED reg
=============================================================================
