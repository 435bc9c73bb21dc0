----------------------------- MODULE TraceFilter -----------------------------
(* Each trace line: the files of a run as the tool names them, the patterns given, and the candidates it showed. *)
EXTENDS Filter
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == l = 1 /\ LET t == Trace[1] IN StartWith(t.cands, t.hfOpt, t.hfEnv, t.ignOpt, t.ignEnv)
TStep == stage # "done" /\ Next /\ UNCHANGED l
TNext == /\ stage = "done" /\ l <= Len(Trace)
         /\ shown = Range(Trace[l].shown)
         /\ l' = l + 1
         /\ IF l < Len(Trace)
            THEN LET t == Trace[l+1] IN
                 /\ cands' = t.cands /\ hfOpt' = t.hfOpt /\ hfEnv' = t.hfEnv /\ ignOpt' = t.ignOpt /\ ignEnv' = t.ignEnv
                 /\ hf' = <<>> /\ ign' = <<>> /\ i' = 1 /\ stage' = "configure" /\ shown' = {}
            ELSE UNCHANGED vars
TSpec == TInit /\ [][TStep \/ TNext]_<<vars, l>>
ASSUME TLCSet(1, 0)
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Accepted == PrintT("@" \o ToJson([consumed |-> TLCGet(1) - 1, total |-> Len(Trace)]))
=============================================================================
