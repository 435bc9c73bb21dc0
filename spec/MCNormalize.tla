---------------------------- MODULE MCNormalize ----------------------------
(* every text of a few tokens, legal or not *)
EXTENDS Normalize
P == JsonDeserialize(IOEnv.PARAMS)
V == Range(P.words) \cup Range(P.symbols)
VARIABLE mid
X(m) == [kind |-> P.kind, toks |-> P.before \o m \o P.after]
Init == mid = <<>> /\ Reset(X(<<>>))
Fits(t) == IF mid = <<>> THEN TRUE ELSE LET m == mid[Len(mid)] IN ~(t \in Range(P.words) /\ m \in Range(P.words)) /\ ~(IsBlank(t) /\ IsBlank(m))
Grow == Done /\ Len(mid) < P.max /\ \E t \in V : Fits(t) /\ mid' = Append(mid, t) /\ Restart(X(mid'))
Next == Grow \/ (Read /\ UNCHANGED mid)
Spec == Init /\ [][Next]_<<vars, mid>>
(* normalising removes or moves words, and makes up none but these *)
InvWords == Done => Len(out) <= Len(Original(inp)) + 6 * Len(mid) + 8
Emit == Done /\ Len(mid) >= P.min => PrintT("@" \o ToJson(<<Original(inp), Report(inp, out)>>))
=============================================================================
