------------------------------- MODULE Visit -------------------------------
(***************************************************************************)
(* C09, C10, C11.  What one run over one translation unit reports, by      *)
(* where its code lives.  The unit is a sequence of items; an item is a    *)
(* piece of code that by itself, plain in the main file, gives the         *)
(* diagnostics item.base (records [check, line, col, msg], positions       *)
(* relative to the item).                                                  *)
(*   item.where  main, user (header), system (header): the file its place  *)
(*               is shown in; for macros that is where the macro is used   *)
(*   item.how    direct    written there                                   *)
(*               template  written there in a template, which is           *)
(*                         instantiated several times                      *)
(*               body      in a macro's body; used item.uses times         *)
(*               arg       in the argument of a macro which expands it     *)
(*                         several times                                   *)
(*   item.blind  checks that cannot see through macros                     *)
(* Options: ignore = ignore-included-files, which the checks in inp.can    *)
(* support; quiet = the main file is a generated qmlcache file.  The front *)
(* end does not occur in it: it is the same for all of them.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt, TLC, Json, IOUtils

VARIABLES inp,   \* [items, can, ignore, quiet]
          out    \* what was reported: sequence of [item, use, d]
vars == <<inp, out>>
StartWith(x) == inp = x /\ out = <<>>
Restart(x) == inp' = x /\ out' = <<>>

Item(k) == inp.items[k]
Checks(it) == {it.base[i].check : i \in DOMAIN it.base}
Place(d) == <<d.line, d.col>>
Times(s, e) == Cardinality({i \in DOMAIN s : s[i] = e})

(* may check c report anything of item it at all? *)
Reportable(x, it, c) == /\ ~x.quiet
                        /\ it.where # "system"
                        /\ ~(x.ignore /\ c \in Range(x.can) /\ it.where # "main")
                        /\ ~(it.how \in {"body", "arg"} /\ c \in Range(it.blind))

(* the reports of item k are [item |-> k, use, d]; in a macro body d has no place of its own, the place is the use *)
InBase(it, d) == \E i \in DOMAIN it.base : it.base[i] = d
Said(it, c, m) == \E i \in DOMAIN it.base : it.base[i].check = c /\ it.base[i].msg = m
Sofar(k, u, c) == {i \in DOMAIN out : out[i].item = k /\ out[i].use = u /\ out[i].d.check = c}
MayReport(k, u, d) ==
  LET it == Item(k) e == [item |-> k, use |-> u, d |-> d] IN
  /\ Reportable(inp, it, d.check)
  /\ CASE it.how \in {"direct", "template"} -> u = 1 /\ InBase(it, d) /\ Times(out, e) < Times(it.base, d)
       [] it.how = "body" -> u \in 1..it.uses /\ d.line = 0 /\ d.col = 0 /\ Said(it, d.check, d.msg) /\ Sofar(k, u, d.check) = {}
       [] it.how = "arg" -> u = 1 /\ InBase(it, d) /\ \A i \in Sofar(k, u, d.check) : Place(out[i].d) # Place(d)
Report(k, u, d) == MayReport(k, u, d) /\ out' = Append(out, [item |-> k, use |-> u, d |-> d]) /\ UNCHANGED inp

(* nothing that has to be reported is missing *)
Complete(k) == LET it == Item(k) IN \A i \in DOMAIN it.base :
  LET d == it.base[i] IN Reportable(inp, it, d.check) =>
    CASE it.how = "direct" -> Times(out, [item |-> k, use |-> 1, d |-> d]) = Times(it.base, d)
      [] it.how = "template" -> TRUE     \* code that depends on the arguments may not be understood
      [] it.how = "body" -> \A u \in 1..it.uses : Sofar(k, u, d.check) # {}
      [] it.how = "arg" -> \E j \in Sofar(k, 1, d.check) : Place(out[j].d) = Place(d)
Done == \A k \in DOMAIN inp.items : Complete(k)

InvSystemSilent == \A i \in DOMAIN out : Item(out[i].item).where # "system"
InvQuiet == inp.quiet => out = <<>>
InvIgnore == inp.ignore => \A i \in DOMAIN out : out[i].d.check \in Range(inp.can) => Item(out[i].item).where = "main"
InvNotMore == \A i \in DOMAIN out : Item(out[i].item).how # "body" => Times(out, out[i]) <= Times(Item(out[i].item).base, out[i].d)
InvOncePerUse == \A i, j \in DOMAIN out : i # j /\ out[i].item = out[j].item /\ Item(out[i].item).how = "body" /\ out[i].use = out[j].use
                    => out[i].d.check # out[j].d.check
=============================================================================
