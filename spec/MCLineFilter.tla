---------------------------- MODULE MCLineFilter ----------------------------
EXTENDS LineFilter
P == JsonDeserialize(IOEnv.PARAMS)
Init == \E n \in 0..P.max : \E es \in [1..n -> Range(P.entries)] : StartWith("list", es, P.cands)
Spec == Init /\ [][Next]_vars
Emit == stage = "done" => PrintT("@" \o ToJson([entries |-> entries, shown |-> SetToSortSeq(shown, <)]))
=============================================================================
