------------------------------ MODULE MCFixIt ------------------------------
(* every unit of the grammar, proposed or not, silenced or not, applied or not *)
EXTENDS FixIt
Init == \E u \in Units \cup FUnits, s \in BOOLEAN : Write(u, s)
Next == \/ \E p \in BOOLEAN : Run(p)
        \/ \E c \in BOOLEAN : \E t \in unit.after \cup {unit.text} : Apply(c, t)
        \/ \E p \in BOOLEAN : Rerun(p, TRUE)
Spec == Init /\ [][Next]_vars
InvText == text \in unit.after \cup {unit.text}
InvMust == unit.must => unit.after # {}
InvSilenced == silenced => text = unit.text /\ ~proposed
InvChanged == text # unit.text => proposed \/ phase = "rerun"
InvGone == phase = "rerun" /\ text # unit.text /\ ~Further(unit.check, text) => ~proposed
InvRules == unit.text \notin unit.after
Emit == phase = "written" /\ ~silenced => PrintT("@" \o ToJson([check |-> unit.check, qt |-> SetToSeq(unit.qt), text |-> unit.text, after |-> SetToSeq(unit.after), must |-> unit.must, file |-> unit \in FUnits]))
=============================================================================
