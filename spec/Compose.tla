------------------------------ MODULE Compose ------------------------------
(***************************************************************************)
(* C15.  A run with a selection of checks.  inp.alone gives, per check,    *)
(* the sequence of diagnostics it produces when it runs alone.  A joint    *)
(* run may interleave the checks in any way, but each check goes through   *)
(* its own sequence: it neither loses, gains nor changes a diagnostic      *)
(* because of the others or of the order in which they were requested.     *)
(* The second run of the same command repeats the first.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt, TLC, Json, IOUtils

VARIABLES inp,     \* [sel: seq of check names, alone: [name |-> seq of diagnostics]]
          next,    \* per selected check: index of the diagnostic to come
          out      \* the diagnostics reported so far
vars == <<inp, next, out>>
Selected(x) == Range(x.sel)
Fresh(x) == [c \in Selected(x) |-> 1]
StartWith(x) == inp = x /\ next = Fresh(x) /\ out = <<>>
Restart(x) == inp' = x /\ next' = Fresh(x) /\ out' = <<>>

Left(c) == next[c] <= Len(inp.alone[c])
Report(c) == /\ c \in Selected(inp) /\ Left(c)
             /\ out' = Append(out, inp.alone[c][next[c]])
             /\ next' = [next EXCEPT ![c] = @ + 1]
             /\ UNCHANGED inp
Next == \E c \in Selected(inp) : Report(c)
Done == \A c \in Selected(inp) : ~Left(c)

Times(s, d) == Cardinality({k \in DOMAIN s : s[k] = d})
AloneTimes(d) == FoldSet(LAMBDA c, n : n + Times(inp.alone[c], d), 0, Selected(inp))
Diags == UNION {Range(inp.alone[c]) : c \in DOMAIN inp.alone}
(* nothing but what the checks give alone, never too often, and in the end all of it *)
InvNoGain == \A d \in Diags : Times(out, d) <= AloneTimes(d)
InvUnion == Done => \A d \in Diags : Times(out, d) = AloneTimes(d)
InvOnlySelected == \A k \in DOMAIN out : \E c \in Selected(inp) : out[k] \in Range(inp.alone[c])
(* requesting twice, or in another order, is the same selection *)
InvOrder == \A c \in Selected(inp) : \A k, m \in DOMAIN inp.alone[c] :
              k < m /\ m < next[c] => \E p, q \in DOMAIN out : p < q /\ out[p] = inp.alone[c][k] /\ out[q] = inp.alone[c][m]
=============================================================================
