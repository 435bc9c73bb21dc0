---------------------------- MODULE Suppression ----------------------------
(***************************************************************************)
(* C02, C03.  Suppression comments.  A file is a sequence of lines, a line *)
(* holds comments (at most one directive each) and the checks that have a  *)
(* warning there.  Scan reads the file once, line by line, into tables as  *)
(* the tool does; Report looks every warning up.  Declared says which      *)
(* warnings the user must see, straight from the comments.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt, TLC, Json, IOUtils

NoComment == [fam |-> "text", kind |-> "text", bare |-> FALSE, list |-> <<>>]

RECURSIVE Glob(_, _)
Glob(p, s) ==
  IF Len(p) = 0 THEN Len(s) = 0
  ELSE LET pt == IF Len(p) = 1 THEN "" ELSE SubSeq(p, 2, Len(p))
           st == IF Len(s) <= 1 THEN "" ELSE SubSeq(s, 2, Len(s))
       IN IF SubSeq(p, 1, 1) = "*" THEN Glob(pt, s) \/ (Len(s) > 0 /\ Glob(p, st))
          ELSE Len(s) > 0 /\ SubSeq(p, 1, 1) = SubSeq(s, 1, 1) /\ Glob(pt, st)
Matches(pattern, check) == Glob(pattern, "clazy-" \o check)
AnyMatches(list, check) == \E i \in DOMAIN list : Matches(list[i], check)

VARIABLES file, pos, skip, all, byLine, nolint, stack, ranges, odd, reported, phase
vars == <<file, pos, skip, all, byLine, nolint, stack, ranges, odd, reported, phase>>

Start(f) ==
  /\ file = f /\ pos = 1 /\ skip = FALSE /\ all = {} /\ byLine = {} /\ nolint = {} /\ stack = <<>> /\ ranges = {}
  /\ odd = 0 /\ reported = {} /\ phase = "scan"

(* effect of one comment on the tables *)
Tables == [skip |-> skip, all |-> all, byLine |-> byLine, nolint |-> nolint, stack |-> stack, ranges |-> ranges, odd |-> odd]
Apply(t, c, l) ==
  CASE c.fam = "clazy" /\ c.kind = "skip" -> [t EXCEPT !.skip = TRUE]
    [] c.fam = "clazy" /\ c.kind = "all"  -> [t EXCEPT !.all = @ \union Range(c.list)]
    [] c.fam = "clazy" /\ c.kind = "cur"  -> [t EXCEPT !.byLine = @ \union {<<l, n>> : n \in Range(c.list)}]
    [] c.fam = "clazy" /\ c.kind = "next" -> [t EXCEPT !.byLine = @ \union {<<l + 1, n>> : n \in Range(c.list)}]
    [] c.fam = "nolint" /\ c.kind = "line" -> [t EXCEPT !.nolint = @ \union {[line |-> l, bare |-> c.bare, list |-> c.list]}]
    [] c.fam = "nolint" /\ c.kind = "next" -> [t EXCEPT !.nolint = @ \union {[line |-> l + 1, bare |-> c.bare, list |-> c.list]}]
    [] c.fam = "nolint" /\ c.kind = "begin" -> [t EXCEPT !.stack = Append(@, [line |-> l, bare |-> c.bare, list |-> c.list])]
    [] c.fam = "nolint" /\ c.kind = "end" ->
         IF t.stack = <<>> \/ Last(t.stack).bare # c.bare \/ Last(t.stack).list # c.list
         THEN [t EXCEPT !.odd = @ + 1]
         ELSE [t EXCEPT !.ranges = @ \union {[from |-> Last(t.stack).line, to |-> l, bare |-> c.bare, list |-> c.list]},
                        !.stack = Front(@)]
    [] OTHER -> t

ScanLine ==
  /\ phase = "scan" /\ pos <= Len(file)
  /\ LET t == FoldLeft(LAMBDA a, c : Apply(a, c, pos), Tables, file[pos].comments)
     IN /\ skip' = t.skip /\ all' = t.all /\ byLine' = t.byLine /\ nolint' = t.nolint
        /\ stack' = t.stack /\ ranges' = t.ranges /\ odd' = t.odd
  /\ pos' = pos + 1
  /\ UNCHANGED <<file, reported, phase>>

Lookup(l, c) ==
  \/ skip
  \/ c \in all
  \/ <<l, c>> \in byLine
  \/ \E n \in nolint : n.line = l /\ (n.bare \/ AnyMatches(n.list, c))
  \/ \E r \in ranges : r.from <= l /\ l <= r.to /\ (r.bare \/ AnyMatches(r.list, c))

Report ==
  /\ phase = "scan" /\ pos > Len(file)
  /\ reported' = {<<l, c>> \in UNION {{l} \X Range(file[l].warn) : l \in DOMAIN file} : ~Lookup(l, c)}
  /\ phase' = "done"
  /\ UNCHANGED <<file, pos, skip, all, byLine, nolint, stack, ranges, odd>>

Next == ScanLine \/ Report

(***************************** the property ******************************)
Comments(f, l) == IF l \in DOMAIN f THEN Range(f[l].comments) ELSE {}
AllComments(f) == UNION {Comments(f, l) : l \in DOMAIN f}
Clazy(c, k) == c.fam = "clazy" /\ c.kind = k
Nolint(c, k) == c.fam = "nolint" /\ c.kind = k
Hits(c, n) == c.bare \/ AnyMatches(c.list, n)

DeclaredSuppressed(f, l, n) ==
  \/ \E c \in AllComments(f) : Clazy(c, "skip")
  \/ \E c \in AllComments(f) : Clazy(c, "all") /\ n \in Range(c.list)
  \/ \E c \in Comments(f, l) : Clazy(c, "cur") /\ n \in Range(c.list)
  \/ \E c \in Comments(f, l - 1) : Clazy(c, "next") /\ n \in Range(c.list)
  \/ \E c \in Comments(f, l) : Nolint(c, "line") /\ Hits(c, n)
  \/ \E c \in Comments(f, l - 1) : Nolint(c, "next") /\ Hits(c, n)
  \/ \E r \in ranges : r.from <= l /\ l <= r.to /\ (r.bare \/ AnyMatches(r.list, n))

Warnings(f) == UNION {{l} \X Range(f[l].warn) : l \in DOMAIN f}
Done == phase = "done"
InvExact == Done => reported = {w \in Warnings(file) : ~DeclaredSuppressed(file, w[1], w[2])}
(* ranges are exactly the properly nested, matching BEGIN/END pairs *)
InvRanges == \A r \in ranges :
   /\ r.from <= r.to
   /\ \E c \in Comments(file, r.from) : Nolint(c, "begin") /\ c.list = r.list /\ c.bare = r.bare
   /\ \E c \in Comments(file, r.to) : Nolint(c, "end") /\ c.list = r.list /\ c.bare = r.bare
(* nothing is lost without a comment that names the check, or names all *)
InvNoCommentNoLoss == Done /\ (\A c \in AllComments(file) : c.fam = "text") => reported = Warnings(file)
InvOtherChecksIrrelevant == Done =>
   \A w \in Warnings(file) :
      (\A c \in AllComments(file) :
          /\ c.fam = "clazy" => c.kind # "skip" /\ w[2] \notin Range(c.list)
          /\ c.fam = "nolint" => ~c.bare /\ ~AnyMatches(c.list, w[2])) => w \in reported
InvSkip == Done /\ (\E c \in AllComments(file) : Clazy(c, "skip")) => reported = {}
=============================================================================
