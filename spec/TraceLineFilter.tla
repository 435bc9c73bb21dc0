--------------------------- MODULE TraceLineFilter ---------------------------
EXTENDS LineFilter
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == l = 1 /\ StartWith(Trace[1].given, Trace[1].entries, Trace[1].cands)
TStep == stage # "done" /\ Next /\ UNCHANGED l
TNext == /\ stage = "done" /\ l <= Len(Trace)
         /\ shown = Range(Trace[l].shown)
         /\ l' = l + 1
         /\ IF l < Len(Trace)
            THEN /\ given' = Trace[l+1].given /\ entries' = Trace[l+1].entries /\ cands' = Trace[l+1].cands
                 /\ i' = 1 /\ e' = 1 /\ r' = 1 /\ stage' = "next" /\ shown' = {}
            ELSE UNCHANGED vars
TSpec == TInit /\ [][TStep \/ TNext]_<<vars, l>>
ASSUME TLCSet(1, 0)
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Accepted == PrintT("@" \o ToJson([consumed |-> TLCGet(1) - 1, total |-> Len(Trace)]))
=============================================================================
