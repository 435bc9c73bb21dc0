------------------------------ MODULE MCVisit ------------------------------
(***************************************************************************)
(* The implementation's shape: code is met while preprocessing, by the     *)
(* visitor, or by a matcher (the route, a property of the check); the      *)
(* visitor looks at the location of the node before handing it on, and     *)
(* every report passes the common emission gate.  Whatever the routes and  *)
(* their order, the outcome is the one Visit describes.                    *)
(***************************************************************************)
EXTENDS Visit
P == JsonDeserialize(IOEnv.PARAMS)      \* items: the pool, n: how many per unit, orders: sequences of routes
VARIABLES route, order, todo
mvars == <<vars, route, order, todo>>
Occur(k) == LET it == Item(k) IN       \* every time the code of item k is met: <<item, use, diagnostic index>>
  [j \in 1..(Len(it.base) * (IF it.how = "body" THEN it.uses ELSE IF it.how \in {"template", "arg"} THEN 2 ELSE 1)) |->
     <<k, IF it.how = "body" THEN 1 + ((j - 1) \div Len(it.base)) ELSE 1, 1 + ((j - 1) % Len(it.base))>>]
RECURSIVE All(_)
All(k) == IF k > Len(inp.items) THEN <<>> ELSE Occur(k) \o All(k + 1)
RECURSIVE AllOf(_, _)
AllOf(x, k) == IF k > Len(x.items) THEN <<>> ELSE
  LET it == x.items[k]
      o == [j \in 1..(Len(it.base) * (IF it.how = "body" THEN it.uses ELSE IF it.how \in {"template", "arg"} THEN 2 ELSE 1)) |->
              <<k, IF it.how = "body" THEN 1 + ((j - 1) \div Len(it.base)) ELSE 1, 1 + ((j - 1) % Len(it.base))>>]
  IN o \o AllOf(x, k + 1)
Routes == {"pp", "visit", "match"}
Phased(x, r, ord) == FoldSeq(LAMBDA ph, acc : acc \o SelectSeq(AllOf(x, 1), LAMBDA o : r[x.items[o[1]].base[o[3]].check] = ph), <<>>, ord)
Pool == Range(P.items)
CheckNames == UNION {Checks(it) : it \in Pool}
Init == \E n \in 1..P.n : \E s \in [1..n -> Pool] : \E ig, q \in BOOLEAN :
          /\ StartWith([items |-> s, can |-> P.can, ignore |-> ig, quiet |-> q])
          /\ \E ord \in Range(P.orders) : order = ord
          /\ IF P.routes = "all" THEN \E r \in [UNION {Checks(s[k]) : k \in 1..n} -> Routes] : route = r
                                 ELSE route = [c \in CheckNames |-> "visit"]
          /\ todo = Phased(inp, route, order)
VisitGate(it, c) == it.where # "system" /\ ~(inp.ignore /\ c \in Range(inp.can) /\ it.where # "main")
EmitGate(it, c) == it.where # "system" /\ ~(inp.ignore /\ c \in Range(inp.can) /\ it.where # "main")
Dup(k, u, d) == LET it == Item(k) IN
  CASE it.how = "body" -> Sofar(k, u, d.check) # {}
    [] it.how = "arg" -> \E i \in Sofar(k, u, d.check) : Place(out[i].d) = Place(d)
    [] it.how = "template" -> \E i \in DOMAIN out : out[i] = [item |-> k, use |-> u, d |-> d]
    [] OTHER -> FALSE
Step == /\ todo # <<>>
        /\ LET o == Head(todo) it == Item(o[1]) b == it.base[o[3]]
               d == IF it.how = "body" THEN [b EXCEPT !.line = 0, !.col = 0] ELSE b
           IN IF \/ inp.quiet
                 \/ route[b.check] = "visit" /\ ~VisitGate(it, b.check)
                 \/ ~EmitGate(it, b.check)
                 \/ it.how \in {"body", "arg"} /\ b.check \in Range(it.blind)
                 \/ Dup(o[1], o[2], d)
              THEN UNCHANGED <<inp, out>>
              ELSE out' = Append(out, [item |-> o[1], use |-> o[2], d |-> d]) /\ UNCHANGED inp
        /\ todo' = Tail(todo) /\ UNCHANGED <<route, order>>
Spec == Init /\ [][Step]_mvars
(* what is reported was allowed when it was reported, and in the end nothing is missing *)
StepAllowed == [][out' # out => LET e == out'[Len(out')] IN MayReport(e.item, e.use, e.d)]_mvars
InvDone == todo = <<>> => Done
(* the expectation of one unit, for replay: [item, use, check] with how many, and whether that is exact *)
Emit == (todo = <<>> /\ route = [c \in DOMAIN route |-> "visit"] /\ order = P.orders[1]) =>
          PrintT("@" \o ToJson([items |-> [k \in DOMAIN inp.items |-> inp.items[k].id], ignore |-> inp.ignore, quiet |-> inp.quiet,
                                got |-> [i \in DOMAIN out |-> <<out[i].item, out[i].use, out[i].d.check, out[i].d.line, out[i].d.col, out[i].d.msg>>]]))
=============================================================================
