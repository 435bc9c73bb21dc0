----------------------------- MODULE MCCompose -----------------------------
EXTENDS Compose
P == JsonDeserialize(IOEnv.PARAMS)
Init == \E n \in 1..P.max : \E s \in [1..n -> Range(P.checks)] : StartWith([sel |-> s, alone |-> P.alone])
Spec == Init /\ [][Next]_vars
Emit == (\A c \in Selected(inp) : next[c] = 1) => PrintT("@" \o ToJson([sel |-> inp.sel]))
=============================================================================
