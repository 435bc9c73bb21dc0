------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* C07, C08, C14.  A run over a sequence of translation units: only-qt,    *)
(* what each unit reports, and the exported fix files.                     *)
(* A unit is [flags, state, cands]; state is "ok", "broken" (has compile   *)
(* errors) or "missing"; a candidate is [id, stage, silenced] with stage   *)
(* "pp" (found while preprocessing) or "ast".  Analysis of a broken unit   *)
(* ends at its first statement, where all "ast" candidates of the harness  *)
(* come after.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt, TLC, Json, IOUtils

VARIABLES inp,       \* [front, onlyQt, export, tus]
          t, f, c, stage, qt,
          reported,  \* seq per unit of sequences of ids
          pending,   \* what the exporter holds
          files,     \* seq of [tu, ids]: the files written; tu = 0 for the file of the whole run
          failed
vars == <<inp, t, f, c, stage, qt, reported, pending, files, failed>>
StartWith(x) == inp = x /\ t = 1 /\ f = 1 /\ c = 1 /\ stage = "open" /\ qt = FALSE /\ reported = <<>> /\ pending = <<>> /\ files = <<>> /\ failed = FALSE
Restart(x) == inp' = x /\ t' = 1 /\ f' = 1 /\ c' = 1 /\ stage' = "open" /\ qt' = FALSE /\ reported' = <<>> /\ pending' = <<>> /\ files' = <<>> /\ failed' = FALSE

TU == inp.tus[t]
PerUnit == inp.front = "plugin"
Defines(flag) == flag = "-DQT_CORE_LIB" \/ (Len(flag) > 13 /\ SubSeq(flag, 1, 14) = "-DQT_CORE_LIB=")
Undefines(flag) == flag = "-UQT_CORE_LIB"

Open == /\ stage = "open"
        /\ IF t > Len(inp.tus)
           THEN /\ stage' = "done" /\ UNCHANGED <<t, reported, failed, pending>>
                /\ files' = IF inp.export /\ ~PerUnit /\ pending # <<>> THEN Append(files, [tu |-> 0, ids |-> pending]) ELSE files
           ELSE /\ reported' = Append(reported, <<>>) /\ UNCHANGED files
                /\ IF TU.state = "missing" THEN failed' = TRUE /\ t' = t + 1 /\ UNCHANGED <<stage, pending>>
                   ELSE stage' = "flags" /\ UNCHANGED <<t, failed>> /\ pending' = (IF PerUnit THEN <<>> ELSE pending)
        /\ f' = 1 /\ c' = 1 /\ qt' = FALSE /\ UNCHANGED inp
(* the macro definitions of the command line, the last one wins *)
Flag == /\ stage = "flags" /\ UNCHANGED <<inp, t, c, reported, pending, files, failed>>
        /\ IF f > Len(TU.flags) THEN stage' = "cands" /\ UNCHANGED <<f, qt>>
           ELSE f' = f + 1 /\ UNCHANGED stage /\ qt' = (IF Defines(TU.flags[f]) THEN TRUE ELSE IF Undefines(TU.flags[f]) THEN FALSE ELSE qt)
Skipped == inp.onlyQt /\ ~qt
Cand == /\ stage = "cands" /\ c <= Len(TU.cands) /\ c' = c + 1
        /\ LET x == TU.cands[c] IN
           IF Skipped \/ x.silenced \/ (TU.state = "broken" /\ x.stage = "ast") THEN UNCHANGED <<reported, pending>>
           ELSE reported' = [reported EXCEPT ![t] = Append(@, x.id)] /\ pending' = (IF inp.export THEN Append(pending, x.id) ELSE pending)
        /\ UNCHANGED <<inp, t, f, stage, qt, files, failed>>
Close == /\ stage = "cands" /\ c > Len(TU.cands)
         /\ files' = IF inp.export /\ PerUnit /\ pending # <<>> THEN Append(files, [tu |-> t, ids |-> pending]) ELSE files
         /\ failed' = (failed \/ TU.state = "broken")
         /\ t' = t + 1 /\ stage' = "open" /\ UNCHANGED <<inp, f, c, qt, reported, pending>>
Next == Open \/ Flag \/ Cand \/ Close

Done == stage = "done"
(************************ C07 ************************)
LastWord(fl) == LET w == SelectSeq(fl, LAMBDA x : Defines(x) \/ Undefines(x)) IN IF w = <<>> THEN FALSE ELSE Defines(w[Len(w)])
Analysed(u) == u.state # "missing" /\ (inp.onlyQt => LastWord(u.flags))
Found(u) == SelectSeq(u.cands, LAMBDA x : ~x.silenced /\ (u.state = "broken" => x.stage = "pp"))
Ids(s) == [k \in DOMAIN s |-> s[k].id]
InvOnlyQt == Done => \A k \in DOMAIN inp.tus : IF Analysed(inp.tus[k]) THEN reported[k] = Ids(Found(inp.tus[k])) ELSE reported[k] = <<>>
(************************ C14 ************************)
InvAlone == Done => /\ Len(reported) = Len(inp.tus)
                    /\ \A k, m \in DOMAIN inp.tus : inp.tus[k] = inp.tus[m] => reported[k] = reported[m]
(************************ C08 ************************)
All == FoldSeq(LAMBDA s, acc : acc \o s, <<>>, reported)
InvExport == Done => IF ~inp.export THEN files = <<>>
                     ELSE IF PerUnit THEN files = SelectSeq([k \in DOMAIN inp.tus |-> [tu |-> k, ids |-> reported[k]]], LAMBDA x : x.ids # <<>>)
                     ELSE files = IF All = <<>> THEN <<>> ELSE <<[tu |-> 0, ids |-> All]>>
InvSilenced == \A k \in DOMAIN files : \A id \in Range(files[k].ids) : \E u \in Range(inp.tus) : \E x \in Range(u.cands) : x.id = id /\ ~x.silenced
InvExit == Done => failed = (\E u \in Range(inp.tus) : u.state # "ok")
Sorted(s) == SortSeq(s, <)
=============================================================================
