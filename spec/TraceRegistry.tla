--------------------------- MODULE TraceRegistry ---------------------------
EXTENDS Registry
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == l = 1 /\ Reset(JsonDeserialize(IOEnv.REGISTRY))
(* sequences of names stand for sets, also the third component of an entry *)
Norm(x) == IF Len(x) = 3 THEN <<x[1], x[2], Range(x[3])>> ELSE x
Got(k) == IF Trace[k].view \in {"json", "help", "readme", "levels", "installed", "readmelevels", "explain"} THEN {Norm(x) : x \in Range(Trace[k].got)} ELSE Range(Trace[k].got)
TNext == l <= Len(Trace) /\ Ask(Trace[l]) /\ Got(l) = answer' /\ Len(Trace[l].got) = Cardinality(answer') /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<vars, l>>
ASSUME TLCSet(1, 0)
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Accepted == PrintT("@" \o ToJson([consumed |-> TLCGet(1) - 1, total |-> Len(Trace)]))
=============================================================================
