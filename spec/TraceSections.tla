--------------------------- MODULE TraceSections ---------------------------
EXTENDS Sections
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
In(k) == [items |-> Trace[k].items, uses |-> Trace[k].uses]
TInit == l = 1 /\ StartWith(In(1))
TStep == l <= Len(Trace) /\ Read /\ UNCHANGED l
Got(k, i) == {x[2] : x \in {y \in Range(Trace[k].got) : y[1] = i}}
(* clazy: every method and every use has exactly the reports that its kind asks for *)
ClazyAgrees(k) == /\ \A n \in DOMAIN out : Got(k, "m" \o ToString(out[n].id)) = Reports(out[n])
                  /\ \A n \in DOMAIN inp.uses : Got(k, "u" \o ToString(inp.uses[n].n)) = UseReports(inp.uses[n])
(* moc: the lists of signals, slots and methods it generates *)
MocAgrees(k) == \A n \in DOMAIN out : out[n].cls > 0 => Got(k, "m" \o ToString(out[n].id)) = IF out[n].moc = "none" THEN {} ELSE {out[n].moc}
TNext == /\ l <= Len(Trace) /\ Done
         /\ Range(Trace[l].owners) \subseteq ({"m" \o ToString(out[n].id) : n \in DOMAIN out} \cup {"u" \o ToString(inp.uses[n].n) : n \in DOMAIN inp.uses})
         /\ IF Trace[l].by = "moc" THEN MocAgrees(l) ELSE ClazyAgrees(l)
         /\ l' = l + 1
         /\ IF l < Len(Trace) THEN Restart(In(l + 1)) ELSE UNCHANGED vars
TSpec == TInit /\ [][TStep \/ TNext]_<<vars, l>>
ASSUME TLCSet(1, 0)
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Accepted == PrintT("@" \o ToJson([consumed |-> TLCGet(1) - 1, total |-> Len(Trace)]))
=============================================================================
