----------------------------- MODULE TraceVisit -----------------------------
(* Tables: what each snippet gives plain in the main file, which checks support ignore-included-files, which are blind in which shape.
   Recorded runs: the reports of a run, each attributed to the item and use it was shown at. *)
EXTENDS Visit
Trace == ndJsonDeserialize(IOEnv.TRACE)
Tables == JsonDeserialize(IOEnv.TABLES)
VARIABLE l
Full(it) == [where |-> it.where, how |-> it.how, uses |-> it.uses, base |-> Tables.base[it.id], blind |-> Tables.blind[it.shape]]
In(k) == [items |-> [j \in DOMAIN Trace[k].items |-> Full(Trace[k].items[j])], can |-> Tables.can, ignore |-> Trace[k].ignore, quiet |-> Trace[k].quiet]
TInit == l = 1 /\ StartWith(In(1))
TStep == /\ l <= Len(Trace) /\ Len(out) < Len(Trace[l].got)
         /\ LET e == Trace[l].got[Len(out) + 1] IN
              e.item \in DOMAIN inp.items /\ Report(e.item, e.use, e.d)
         /\ UNCHANGED l
TNext == /\ l <= Len(Trace) /\ Len(out) = Len(Trace[l].got) /\ Done
         /\ l' = l + 1
         /\ IF l < Len(Trace) THEN Restart(In(l + 1)) ELSE UNCHANGED vars
TSpec == TInit /\ [][TStep \/ TNext]_<<vars, l>>
ASSUME TLCSet(1, 0)
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Accepted == PrintT("@" \o ToJson([consumed |-> TLCGet(1) - 1, total |-> Len(Trace)]))
=============================================================================
