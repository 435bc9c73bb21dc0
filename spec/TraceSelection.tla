--------------------------- MODULE TraceSelection ---------------------------
(* Recorded runs of the real tools, checked against Selection: each line is one request with what was observed. *)
EXTENDS Selection
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == l = 1 /\ Start(Trace[1].req)
Matches(e) ==
   /\ outcome = e.outcome
   /\ (e.outcome = "ok" => result = e.result)
   /\ (e.outcome # "toomany" => said = Range(e.said))
(* run the request through the specification's own actions, then compare, then go on with the next line *)
TStep == stage # "done" /\ Next /\ UNCHANGED l
TNext == /\ stage = "done" /\ l <= Len(Trace) /\ Matches(Trace[l])
         /\ l' = l + 1
         /\ IF l < Len(Trace)
            THEN /\ req' = Trace[l+1].req /\ stage' = "level" /\ pending' = <<>> /\ got' = {} /\ off' = {} /\ envGot' = {}
                 /\ said' = {} /\ level' = 9 /\ result' = <<>> /\ outcome' = "running"
            ELSE UNCHANGED vars
TSpec == TInit /\ [][TStep \/ TNext]_<<vars, l>>
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Start1 == TLCSet(1, 0)
ASSUME Start1
Accepted == PrintT("@" \o ToJson([consumed |-> TLCGet(1) - 1, total |-> Len(Trace)]))
=============================================================================
