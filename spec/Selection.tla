------------------------------ MODULE Selection ------------------------------
(***************************************************************************)
(* C01.  How a request for checks (standalone arguments, one comma list,   *)
(* the environment variable) becomes the set of checks that run.           *)
(* The actions follow the implementation's steps; Declared* state the      *)
(* property independently, and the invariants say they agree.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Functions, SequencesExt, TLC, Json, IOUtils

(* the documented metadata: a sequence of [name, level (3 = manual), fixits], ordered by name *)
Registry == JsonDeserialize(IOEnv.REGISTRY)

Dom == 1..Len(Registry)
Names == {Registry[i].name : i \in Dom}
LevelOf == [n \in Names |-> (CHOOSE i \in Dom : Registry[i].name = n)]
Level(n) == Registry[LevelOf[n]].level
FixNames == UNION {{Registry[i].fixits[j] : j \in 1..Len(Registry[i].fixits)} : i \in Dom}
Owner(f) == Registry[CHOOSE i \in Dom : \E j \in 1..Len(Registry[i].fixits) : Registry[i].fixits[j] = f].name

LevelTokens == {"level0", "level1", "level2"}
LevelNo(t) == CASE t = "level0" -> 0 [] t = "level1" -> 1 [] t = "level2" -> 2
UpTo(l) == {n \in Names : Level(n) <= l}

(* Tokens are strings; what each means is decided here. *)
IsLevelish(t) == Len(t) = 6 /\ SubSeq(t, 1, 5) = "level"
IsNo(t) == Len(t) >= 3 /\ SubSeq(t, 1, 3) = "no-"
NoTarget(t) == IF Len(t) = 3 THEN "" ELSE SubSeq(t, 4, Len(t))

Class(t) ==
  CASE t \in Names                          -> "check"
    [] t \in FixNames                       -> "fix"
    [] t \in LevelTokens                    -> "level"
    [] IsLevelish(t)                        -> "badlevel"
    [] IsNo(t) /\ NoTarget(t) \in Names     -> "disable"
    [] IsNo(t)                              -> "baddisable"
    [] OTHER                                -> "bad"

Adds(t) == CASE Class(t) = "check" -> {t}
             [] Class(t) = "fix"   -> {Owner(t)}
             [] Class(t) = "level" -> UpTo(LevelNo(t))
             [] OTHER -> {}
Disables(t) == IF Class(t) = "disable" THEN {NoTarget(t)} ELSE {}
Reports(t) == CASE Class(t) = "badlevel"   -> {<<"Invalid level", t>>}
                [] Class(t) = "baddisable" -> {<<"Invalid check to disable", t>>}
                [] Class(t) = "bad"        -> {<<"Invalid check", t>>}
                [] OTHER -> {}

(* A request: args = the separate arguments that name a level, given before the list; list = the items of the   *)
(* comma list, or NoList; extra = TRUE when a further superfluous argument was given; env = items of the         *)
(* environment variable; all = the variable is "all_checks".                                                     *)
VARIABLES req, stage, pending, got, off, envGot, said, level, result, outcome
vars == <<req, stage, pending, got, off, envGot, said, level, result, outcome>>

ItemsOf(r) == IF r.hasList THEN r.list ELSE <<>>

Start(r) ==
  /\ req = r
  /\ stage = "level" /\ pending = <<>> /\ got = {} /\ off = {} /\ envGot = {} /\ said = {}
  /\ level = 9 /\ result = <<>> /\ outcome = "running"

(* the separate level argument *)
TakeLevel ==
  /\ stage = "level"
  /\ level' = IF req.level = "" THEN 9 ELSE LevelNo(req.level)
  /\ stage' = IF req.extra THEN "toomany" ELSE IF req.hasList THEN "list" ELSE "env"
  /\ pending' = IF ~req.extra /\ req.hasList THEN req.list ELSE <<>>
  /\ UNCHANGED <<req, got, off, envGot, said, result, outcome>>

TooMany ==
  /\ stage = "toomany"
  /\ outcome' = "toomany" /\ stage' = "done"
  /\ UNCHANGED <<req, pending, got, off, envGot, said, level, result>>

ListItem ==
  /\ stage = "list" /\ pending # <<>>
  /\ LET t == Head(pending) IN
       /\ got' = got \union Adds(t)
       /\ off' = off \union Disables(t)
       /\ said' = said \union Reports(t)
  /\ pending' = Tail(pending)
  /\ UNCHANGED <<req, stage, envGot, level, result, outcome>>

ListEnd ==
  /\ stage = "list" /\ pending = <<>>
  /\ got' = got \ off
  /\ IF got \ off = {} /\ off = {}
     THEN stage' = "done" /\ outcome' = "notfound" /\ UNCHANGED pending
     ELSE stage' = "env" /\ UNCHANGED <<outcome, pending>>
  /\ UNCHANGED <<req, off, envGot, said, level, result>>

EnvStart ==
  /\ stage = "env"
  /\ IF req.all
     THEN envGot' = UpTo(2) /\ stage' = "merge" /\ UNCHANGED pending
     ELSE stage' = "envitems" /\ pending' = req.env /\ UNCHANGED envGot
  /\ UNCHANGED <<req, got, off, said, level, result, outcome>>

EnvItem ==
  /\ stage = "envitems" /\ pending # <<>>
  /\ LET t == Head(pending) IN
       /\ envGot' = envGot \union Adds(t)
       /\ said' = said \union Reports(t)
       /\ off' = off \union Disables(t)
  /\ pending' = Tail(pending)
  /\ UNCHANGED <<req, stage, got, level, result, outcome>>

EnvEnd ==
  /\ stage = "envitems" /\ pending = <<>>
  /\ stage' = "merge"
  /\ envGot' = envGot \ (UNION {Disables(req.env[i]) : i \in DOMAIN req.env})
  /\ UNCHANGED <<req, pending, got, off, said, level, result, outcome>>

(* nothing by name: the default level *)
Merge ==
  /\ stage = "merge"
  /\ LET lv == IF got \union envGot = {} /\ level = 9 THEN 1 ELSE level
         sel == ((got \union envGot) \union (IF lv = 9 THEN {} ELSE UpTo(lv))) \ off
     IN /\ level' = lv
        /\ result' = SelectSeq([i \in Dom |-> Registry[i].name], LAMBDA n : n \in sel)
        /\ outcome' = IF sel = {} /\ req.hasList THEN "notfound" ELSE "ok"
  /\ stage' = "done"
  /\ UNCHANGED <<req, pending, got, off, envGot, said>>

Next == TakeLevel \/ TooMany \/ ListItem \/ ListEnd \/ EnvStart \/ EnvItem \/ EnvEnd \/ Merge

(***************************** the property ******************************)
Done == stage = "done"
CliSet(r) == Range(ItemsOf(r))
EnvSet(r) == IF r.all THEN {} ELSE Range(r.env)
Asked(r) == UNION {Adds(t) : t \in CliSet(r) \union EnvSet(r)} \union (IF r.all THEN UpTo(2) ELSE {})
Denied(r) == UNION {Disables(t) : t \in CliSet(r) \union EnvSet(r)}

(* "nothing requested": neither the list nor the environment leaves a check standing, and no level argument *)
CliLeft(r) == UNION {Adds(t) : t \in CliSet(r)} \ UNION {Disables(t) : t \in CliSet(r)}
EnvLeft(r) == (IF r.all THEN UpTo(2) ELSE UNION {Adds(t) : t \in EnvSet(r)}) \ UNION {Disables(t) : t \in EnvSet(r)}
Nothing(r) == r.level = "" /\ CliLeft(r) \union EnvLeft(r) = {}
Declared(r) == ((CliLeft(r) \union EnvLeft(r))
                \union (IF r.level # "" THEN UpTo(LevelNo(r.level)) ELSE IF Nothing(r) THEN UpTo(1) ELSE {}))
               \ Denied(r)

InvResult == Done /\ outcome = "ok" => Range(result) = Declared(req)
InvDisabled == Done => \A n \in Denied(req) : n \notin Range(result)
InvSortedUnique == Done => \A i, j \in DOMAIN result : i < j => LevelOf[result[i]] < LevelOf[result[j]]
InvManual == Done => \A n \in Range(result) : Level(n) = 3 => n \in Asked(req)
InvNothingUnasked == Done => \A n \in Range(result) :
     \/ n \in Asked(req) \/ (req.level # "" /\ n \in UpTo(LevelNo(req.level))) \/ (Nothing(req) /\ n \in UpTo(1))
InvReported == Done /\ outcome # "toomany" =>
     /\ \A t \in CliSet(req) : Reports(t) \subseteq said
     /\ (outcome = "ok" => \A t \in EnvSet(req) : Reports(t) \subseteq said)
InvErrors == Done => (outcome = "toomany" <=> req.extra)
InvNotFound == Done /\ outcome = "notfound" => result = <<>> /\ req.hasList
=============================================================================
