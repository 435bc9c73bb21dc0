--------------------------- MODULE TraceNormalize ---------------------------
EXTENDS Normalize
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
In(k) == [kind |-> Trace[k].kind, toks |-> Trace[k].toks]
TInit == l = 1 /\ Reset(In(1))
TStep == l <= Len(Trace) /\ Read /\ UNCHANGED l
(* by qt: its text.  By clazy: its report, if the place is one it looks at *)
Agrees(k) == IF Trace[k].by = "qt" THEN Trace[k].got = <<out>>
             ELSE Trace[k].got = IF Trace[k].looked THEN Report(inp, out) ELSE <<>>
TNext == l <= Len(Trace) /\ Done /\ Agrees(l) /\ l' = l + 1 /\ IF l < Len(Trace) THEN Restart(In(l + 1)) ELSE UNCHANGED vars
TSpec == TInit /\ [][TStep \/ TNext]_<<vars, l>>
ASSUME TLCSet(1, 0)
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Accepted == PrintT("@" \o ToJson([consumed |-> TLCGet(1) - 1, total |-> Len(Trace)]))
=============================================================================
