----------------------------- MODULE LineFilter -----------------------------
(***************************************************************************)
(* C05.  The line filter: entries [name, ranges]; a warning is at          *)
(* [file, line] as displayed.  Entries are tried in order, the ranges of   *)
(* an entry in order, until one lets the warning through.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt, TLC, Json, IOUtils

EndsWith(s, t) == Len(t) <= Len(s) /\ (Len(t) = 0 \/ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t)

VARIABLES given,   \* was a filter given: "none", "malformed" or "list"
          entries, cands, i, e, r, stage, shown
vars == <<given, entries, cands, i, e, r, stage, shown>>
StartWith(g, es, c) == given = g /\ entries = es /\ cands = c /\ i = 1 /\ e = 1 /\ r = 1 /\ stage = "next" /\ shown = {}
KEEP == UNCHANGED <<given, entries, cands>>

NextCand == /\ stage = "next" /\ KEEP
            /\ IF i > Len(cands) THEN stage' = "done" /\ UNCHANGED <<i, e, r, shown>>
               ELSE IF given # "list" \/ entries = <<>> THEN shown' = shown \union {i} /\ i' = i + 1 /\ UNCHANGED <<e, r, stage>>
               ELSE stage' = "entry" /\ e' = 1 /\ r' = 1 /\ UNCHANGED <<i, shown>>
Accept == shown' = shown \union {i} /\ i' = i + 1 /\ stage' = "next" /\ UNCHANGED <<e, r>>
Entry == /\ stage = "entry" /\ KEEP
         /\ IF e > Len(entries) THEN i' = i + 1 /\ stage' = "next" /\ UNCHANGED <<e, r, shown>>
            ELSE IF ~EndsWith(cands[i].file, entries[e].name) THEN e' = e + 1 /\ UNCHANGED <<i, r, stage, shown>>
            ELSE IF entries[e].ranges = <<>> THEN Accept
            ELSE stage' = "range" /\ r' = 1 /\ UNCHANGED <<i, e, shown>>
InRange == /\ stage = "range" /\ KEEP
         /\ IF r > Len(entries[e].ranges) THEN e' = e + 1 /\ stage' = "entry" /\ UNCHANGED <<i, r, shown>>
            ELSE IF entries[e].ranges[r][1] <= cands[i].line /\ cands[i].line <= entries[e].ranges[r][2] THEN Accept
            ELSE r' = r + 1 /\ UNCHANGED <<i, e, stage, shown>>
Next == NextCand \/ Entry \/ InRange

Done == stage = "done"
Passes(c) == \E x \in Range(entries) : EndsWith(c.file, x.name) /\ (x.ranges = <<>> \/ \E g \in Range(x.ranges) : c.line \in g[1]..g[2])
InvExact == Done => shown = {k \in DOMAIN cands : given # "list" \/ entries = <<>> \/ Passes(cands[k])}
InvSameLine == Done => \A k, m \in DOMAIN cands : cands[k].file = cands[m].file /\ cands[k].line = cands[m].line => (k \in shown) = (m \in shown)
(* an entry more never hides anything (once there is one), and the order of entries does not matter *)
InvUnion == Done /\ given = "list" /\ entries # <<>> => shown = UNION {{k \in DOMAIN cands : EndsWith(cands[k].file, entries[j].name) /\
      (entries[j].ranges = <<>> \/ \E g \in Range(entries[j].ranges) : g[1] <= cands[k].line /\ cands[k].line <= g[2])} : j \in DOMAIN entries}
=============================================================================
