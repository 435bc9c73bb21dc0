---------------------------- MODULE MCSelection ----------------------------
(* Bounded-exhaustive requests: every list of up to MaxList items and every environment of up to MaxEnv items.  *)
EXTENDS Selection
Par == JsonDeserialize(IOEnv.PARAMS)     \* [toks, envtoks, maxlist, maxenv, deep]
Toks == Range(Par.toks)
EnvToks == Range(Par.envtoks)
Lists == UNION {[1..k -> Toks] : k \in 0..Par.maxlist}
Envs == UNION {[1..k -> EnvToks] : k \in 0..Par.maxenv}
DeepLists == [1..Par.deep -> Toks]
LevelArgs == {"", "level0", "level1", "level2"}
Blank == [level |-> "", hasList |-> FALSE, list |-> <<>>, extra |-> FALSE, env |-> <<>>, all |-> FALSE]
Requests ==
   {[Blank EXCEPT !.level = l, !.hasList = TRUE, !.list = s] : l \in LevelArgs, s \in Lists}
   \union {[Blank EXCEPT !.level = l, !.env = e] : l \in LevelArgs, e \in Envs}
   \union {[Blank EXCEPT !.level = l, !.hasList = TRUE, !.list = <<t>>, !.env = e] : l \in LevelArgs, t \in Toks, e \in Envs}
   \union {[Blank EXCEPT !.level = l, !.hasList = h, !.list = IF h THEN <<t>> ELSE <<>>, !.all = TRUE] : l \in LevelArgs, t \in Toks, h \in BOOLEAN}
   \union {[Blank EXCEPT !.hasList = TRUE, !.list = s] : s \in DeepLists}
   \union {[Blank EXCEPT !.level = l, !.hasList = TRUE, !.list = <<t>>, !.extra = TRUE] : l \in LevelArgs, t \in Toks \ LevelTokens}
Init == \E r \in Requests : Start(r)
Spec == Init /\ [][Next]_vars
Emit == Done => PrintT("@" \o ToJson([req |-> req, result |-> result, outcome |-> outcome, said |-> said]))
=============================================================================
