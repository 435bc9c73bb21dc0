--------------------------- MODULE MCSuppression ---------------------------
EXTENDS Suppression
Par == JsonDeserialize(IOEnv.PARAMS)        \* [alphabet: sequence of comments, lines, warn: sequence of check names]
Alphabet == Range(Par.alphabet)
Line(c) == [comments |-> IF c.kind = "text" THEN <<>> ELSE <<c>>, warn |-> Par.warn]
Files == UNION {[1..n -> {Line(c) : c \in Alphabet}] : n \in 1..Par.lines}
Init == \E f \in Files : Start(f)
Spec == Init /\ [][Next]_vars
Emit == Done => PrintT("@" \o ToJson([file |-> file, reported |-> reported]))
=============================================================================
