-------------------------- MODULE TraceSuppression --------------------------
(* Each trace line: a file and the (line, check) pairs the real tool reported for it. *)
EXTENDS Suppression
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == l = 1 /\ Start(Trace[1].file)
TStep == phase = "scan" /\ Next /\ UNCHANGED l
TNext == /\ phase = "done" /\ l <= Len(Trace)
         /\ reported = {<<w[1], w[2]>> : w \in Range(Trace[l].reported)}
         /\ l' = l + 1
         /\ IF l < Len(Trace)
            THEN /\ file' = Trace[l+1].file /\ pos' = 1 /\ skip' = FALSE /\ all' = {} /\ byLine' = {} /\ nolint' = {}
                 /\ stack' = <<>> /\ ranges' = {} /\ odd' = 0 /\ reported' = {} /\ phase' = "scan"
            ELSE UNCHANGED vars
TSpec == TInit /\ [][TStep \/ TNext]_<<vars, l>>
ASSUME TLCSet(1, 0)
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Accepted == PrintT("@" \o ToJson([consumed |-> TLCGet(1) - 1, total |-> Len(Trace)]))
=============================================================================
