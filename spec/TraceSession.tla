---------------------------- MODULE TraceSession ----------------------------
EXTENDS Session
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == l = 1 /\ StartWith(Trace[1].inp)
TStep == stage # "done" /\ Next /\ UNCHANGED l
TNext == /\ stage = "done" /\ l <= Len(Trace)
         /\ Sorted(All) = Trace[l].reported /\ failed = Trace[l].failed
         /\ [k \in DOMAIN files |-> [tu |-> files[k].tu, ids |-> Sorted(files[k].ids)]] = Trace[l].files
         /\ l' = l + 1
         /\ IF l < Len(Trace) THEN Restart(Trace[l+1].inp) ELSE UNCHANGED vars
TSpec == TInit /\ [][TStep \/ TNext]_<<vars, l>>
ASSUME TLCSet(1, 0)
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Accepted == PrintT("@" \o ToJson([consumed |-> TLCGet(1) - 1, total |-> Len(Trace)]))
=============================================================================
