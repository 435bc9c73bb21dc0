---------------------------- MODULE TraceFixIt ----------------------------
(* recorded lives of units: one line each, [unit, silenced, proposed, chosen, text, compiles, again] *)
EXTENDS FixIt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T(k) == Trace[k]
Un(k) == [check |-> T(k).unit.check, qt |-> Range(T(k).unit.qt), text |-> T(k).unit.text, after |-> Range(T(k).unit.after), must |-> T(k).unit.must]
TInit == l = 1 /\ IF Len(Trace) > 0 THEN Write(Un(1), T(1).silenced) ELSE Write(U("", {}, "", {}, FALSE), FALSE)
TRun == l <= Len(Trace) /\ Run(T(l).proposed) /\ l' = l
TApply == l <= Len(Trace) /\ Apply(T(l).chosen, T(l).text) /\ l' = l
TRerun == l <= Len(Trace) /\ Rerun(T(l).again, T(l).compiles) /\ l' = l + 1
TWrite == l <= Len(Trace) /\ phase = "rerun" /\ unit' = Un(l) /\ phase' = "written" /\ text' = Un(l).text /\ proposed' = FALSE /\ silenced' = T(l).silenced /\ l' = l
TNext == TRun \/ TApply \/ TRerun \/ TWrite
TSpec == TInit /\ [][TNext]_<<vars, l>>
ASSUME TLCSet(1, 0)
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Accepted == PrintT("@" \o ToJson([consumed |-> TLCGet(1) - 1, total |-> Len(Trace)]))
=============================================================================
