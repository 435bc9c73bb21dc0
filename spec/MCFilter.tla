------------------------------ MODULE MCFilter ------------------------------
(* Every pair of patterns, every source of them, over given layouts of files. *)
EXTENDS Filter
P == JsonDeserialize(IOEnv.PARAMS)
Pats == P.patterns        \* the first one is <<>>
Init == \E lay \in DOMAIN P.layouts, m \in Range(P.modes), h, g \in DOMAIN Pats :
  LET Opt(k) == IF m \in {"option", "both"} THEN Pats[k] ELSE <<>>
      Env(k) == IF m = "env" THEN Pats[k] ELSE IF m = "both" THEN Pats[(k % Len(Pats)) + 1] ELSE <<>>
  IN StartWith(P.layouts[lay], Opt(h), Env(h), Opt(g), Env(g))
Spec == Init /\ [][Next]_vars
IdxOf(p) == IF p = <<>> THEN 1 ELSE CHOOSE k \in DOMAIN Pats : Pats[k] = p
Emit == stage = "done" => PrintT("@" \o ToJson([layout |-> CHOOSE k \in DOMAIN P.layouts : P.layouts[k] = cands,
   hfOpt |-> IdxOf(hfOpt), hfEnv |-> IdxOf(hfEnv), ignOpt |-> IdxOf(ignOpt), ignEnv |-> IdxOf(ignEnv), shown |-> SetToSortSeq(shown, <)]))
=============================================================================
