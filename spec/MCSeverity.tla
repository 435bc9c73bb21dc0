----------------------------- MODULE MCSeverity -----------------------------
EXTENDS Severity
P == JsonDeserialize(IOEnv.PARAMS)
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == \E f \in Seqs({"-Werror", "-Wno-error", "-w"}, 2) : \E n \in 0..P.names : \E a \in [1..n -> Range(P.items)] : \E w \in BOOLEAN :
          /\ n > 1 => Len(f) <= P.flagsWithPairs
          /\ StartWith([cands |-> P.cands, known |-> P.known, asErr |-> a, flags |-> f, noWerr |-> w])
Spec == Init /\ [][Next]_vars
Emit == Done => PrintT("@" \o ToJson([asErr |-> inp.asErr, flags |-> inp.flags, noWerr |-> inp.noWerr, sev |-> sev, invalid |-> invalid, rc |-> rc]))
=============================================================================
