---------------------------- MODULE MCSections ----------------------------
EXTENDS Sections
P == JsonDeserialize(IOEnv.PARAMS)
M(n) == [k |-> "method", id |-> n, name |-> n, virt |-> FALSE, cst |-> FALSE, void |-> TRUE, byname |-> FALSE, marks |-> <<>>]
Items(n) == {[k |-> x] : x \in Range(P.plain)}
            \cup {[M(n) EXCEPT !.marks = m, !.cst = c] : m \in Range(P.marks), c \in Range(P.cst)}
            \cup (IF P.body THEN {[M(n) EXCEPT !.k = "body"]} ELSE {})
Init == StartWith([items |-> <<[k |-> "class", cls |-> 1, base |-> 0, thread |-> FALSE, body |-> "object"]>>, uses |-> <<>>])
(* any legal item may come next; after P.max of them what is open is closed *)
Grow == /\ Done /\ Len(inp.items) <= P.max
        /\ \E i \in Items(Len(inp.items)) : inp' = [inp EXCEPT !.items = Append(@, i)]
        /\ UNCHANGED <<pos, stack, out>>
Closer == [object |-> "end", nested |-> "unnest", local |-> "bodyend"]
Close == /\ Done /\ Len(inp.items) > P.max /\ stack # <<>>
         /\ inp' = [inp EXCEPT !.items = Append(@, [k |-> Closer[Top.kind]])]
         /\ UNCHANGED <<pos, stack, out>>
Next == Grow \/ Close \/ Read
Spec == Init /\ [][Next]_vars
Complete == Done /\ stack = <<>> /\ Len(inp.items) > P.max
Emit == Complete => PrintT("@" \o ToJson([items |-> inp.items, types |-> [k \in DOMAIN out |-> [id |-> out[k].id, type |-> out[k].type]]]))
=============================================================================
