----------------------------- MODULE MCWrapper -----------------------------
EXTENDS Wrapper
P == JsonDeserialize(IOEnv.PARAMS)
Words == Range(P.words)
Argvs == UNION {[1..n -> Words] : n \in 0..P.max}
Init == \E a \in Argvs, e \in Range(P.envs) : Reset([e EXCEPT !.argv = a])
Spec == Init /\ [][Read]_vars
Emit == Done => PrintT("@" \o ToJson([inp |-> inp, res |-> res[1]]))
Ends == <>Done
=============================================================================
