---------------------------- MODULE MCRegistry ----------------------------
(* every registry over a few names, every order of two questions *)
EXTENDS Registry
NM == {"a", "b", "c"}
Regs == {<<[name |-> "a", level |-> f["a"], fixits |-> x], [name |-> "b", level |-> f["b"], fixits |-> y], [name |-> "c", level |-> f["c"], fixits |-> <<>>]>>
           : f \in [NM -> 0..3], x \in {<<>>, <<"fix-a">>, <<"fix-a", "fix-aa">>}, y \in {<<>>, <<"fix-b">>}}
Words == {"level0", "level1", "level2", "a", "b", "fix-aa", "no-a", "no-c"}
Q == {[view |-> v] : v \in {"json", "help", "readme", "tidy", "docs", "levels", "installed", "readmelevels"}}
     \cup {[view |-> "explain", what |-> n] : n \in NM}
     \cup {[view |-> v, words |-> SetToSeq(w), present |-> <<"a", "c">>] : v \in {"list", "runs"}, w \in {s \in SUBSET Words : Cardinality(s) <= 2}}
VARIABLE past
Init == \E r \in Regs : Reset(r) /\ past = {}
Next == \E q \in Q : Cardinality(past) < 1 /\ Ask(q) /\ past' = past \cup {<<q, Answer(q)>>}
Spec == Init /\ [][Next]_<<vars, past>>
InvSameSet == LET nm(v) == {x[1] : x \in Answer([view |-> v])} IN
   nm("json") = Answer([view |-> "tidy"]) /\ nm("levels") = Answer([view |-> "docs"]) /\ nm("help") = nm("readmelevels") /\ nm("json") = nm("installed") /\ nm("help") \subseteq nm("readme")
InvNested == \A i, j \in 0..2 : i <= j => Enabled({"level" \o ToString(i)}) \subseteq Enabled({"level" \o ToString(j)})
InvListed == \A i \in 0..2 : Enabled({"level" \o ToString(i)}) = {x[1] : x \in {y \in Answer([view |-> "readmelevels"]) : y[2] <= i}}
InvRuns == query.view = "runs" => answer \subseteq Enabled(Range(query.words))
InvManual == \A n \in Names : Of(n).level = 3 => \A i \in 0..2 : n \notin Enabled({"level" \o ToString(i)})
InvFix == \A n \in HasFix : \A f \in Range(Of(n).fixits) : Enabled({f}) = {n}
InvDefault == Enabled({}) = Enabled({"level1"})
=============================================================================
