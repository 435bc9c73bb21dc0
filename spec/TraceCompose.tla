---------------------------- MODULE TraceCompose ----------------------------
EXTENDS Compose
Trace == ndJsonDeserialize(IOEnv.TRACE)
Tables == JsonDeserialize(IOEnv.TABLES)     \* per program: check |-> what it gives alone
VARIABLE l
In(k) == [sel |-> Trace[k].sel, alone |-> Tables[Trace[k].prog]]
TInit == l = 1 /\ StartWith(In(1))
TStep == /\ l <= Len(Trace) /\ Len(out) < Len(Trace[l].got)
         /\ LET d == Trace[l].got[Len(out) + 1] IN d[1] \in Selected(inp) /\ Left(d[1]) /\ inp.alone[d[1]][next[d[1]]] = d[2] /\ Report(d[1])
         /\ UNCHANGED l
TNext == /\ l <= Len(Trace) /\ Len(out) = Len(Trace[l].got) /\ Done
         /\ Trace[l].again = Trace[l].got
         /\ l' = l + 1
         /\ IF l < Len(Trace) THEN Restart(In(l + 1)) ELSE UNCHANGED vars
TSpec == TInit /\ [][TStep \/ TNext]_<<vars, l>>
ASSUME TLCSet(1, 0)
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Accepted == PrintT("@" \o ToJson([consumed |-> TLCGet(1) - 1, total |-> Len(Trace)]))
=============================================================================
