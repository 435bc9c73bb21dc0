------------------------------ MODULE Severity ------------------------------
(***************************************************************************)
(* C06.  Severity of clazy's diagnostics and the exit status.  The checks  *)
(* to promote and the command line are read item by item, then the         *)
(* candidates are met in the order of the compiler's phases.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt, TLC, Json, IOUtils

VARIABLES inp,      \* [cands: seq of [check, silenced], known: seq of names, asErr, flags: seqs, noWerr]
          i, stage, promoted, invalid, werror, sev, rc
vars == <<inp, i, stage, promoted, invalid, werror, sev, rc>>
Fresh == i = 1 /\ stage = "names" /\ promoted = {} /\ invalid = <<>> /\ werror = FALSE /\ sev = <<>> /\ rc = 0
StartWith(x) == inp = x /\ Fresh
Restart(x) == /\ inp' = x /\ i' = 1 /\ stage' = "names" /\ promoted' = {} /\ invalid' = <<>> /\ werror' = FALSE /\ sev' = <<>> /\ rc' = 0

Name == /\ stage = "names"
        /\ IF i > Len(inp.asErr) THEN stage' = "flags" /\ i' = 1 /\ UNCHANGED <<promoted, invalid>>
           ELSE /\ i' = i + 1 /\ UNCHANGED stage
                /\ IF inp.asErr[i] \in Range(inp.known) THEN promoted' = promoted \union {inp.asErr[i]} /\ UNCHANGED invalid
                   ELSE invalid' = Append(invalid, inp.asErr[i]) /\ UNCHANGED promoted
        /\ UNCHANGED <<inp, werror, sev, rc>>
Flag == /\ stage = "flags"
        /\ IF i > Len(inp.flags) THEN stage' = "emit" /\ i' = 1 /\ UNCHANGED <<werror>>
           ELSE /\ i' = i + 1 /\ UNCHANGED stage
                /\ werror' = CASE inp.flags[i] = "-Werror" -> TRUE [] inp.flags[i] = "-Wno-error" -> FALSE [] OTHER -> werror
        /\ UNCHANGED <<inp, promoted, invalid, sev, rc>>
Sev(c) == IF c.silenced THEN "none"
          ELSE IF c.check \in promoted \/ (werror /\ ~inp.noWerr) THEN "error"
          ELSE "warning"
Emission == /\ stage = "emit"
            /\ IF i > Len(inp.cands) THEN stage' = "done" /\ rc' = (IF "error" \in Range(sev) THEN 1 ELSE 0) /\ UNCHANGED <<i, sev>>
               ELSE i' = i + 1 /\ sev' = Append(sev, Sev(inp.cands[i])) /\ UNCHANGED <<stage, rc>>
            /\ UNCHANGED <<inp, promoted, invalid, werror>>
Next == Name \/ Flag \/ Emission

Done == stage = "done"
(* the flag in force: the last of the two on the command line *)
WerrorInForce == LET w == SelectSeq(inp.flags, LAMBDA f : f \in {"-Werror", "-Wno-error"}) IN w # <<>> /\ w[Len(w)] = "-Werror"
Wanted(c) == c.check \in Range(inp.asErr) \/ (WerrorInForce /\ ~inp.noWerr)
InvExact == Done => \A k \in DOMAIN inp.cands : LET c == inp.cands[k] IN
              /\ sev[k] = "error" <=> ~c.silenced /\ Wanted(c)
              /\ sev[k] = "warning" <=> ~c.silenced /\ ~Wanted(c)
InvExit == Done => (rc # 0) = (\E k \in DOMAIN sev : sev[k] = "error")
InvInvalid == Done => invalid = SelectSeq(inp.asErr, LAMBDA n : n \notin Range(inp.known))
(* promoting never removes a diagnostic *)
InvKeeps == Done => \A k \in DOMAIN sev : sev[k] = "none" => inp.cands[k].silenced
=============================================================================
