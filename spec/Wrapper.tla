------------------------------ MODULE Wrapper ------------------------------
(***************************************************************************)
(* C18.  The clazy command.  It looks at the words it was given from the   *)
(* first on, for as long as they are its own; everything else is for the   *)
(* compiler, which gets it as it is.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt, TLC, Json, IOUtils

VARIABLES inp,    \* [argv, jni: off, on or disabled, ndk, layout: installed, build or none, ld: sequence of folders, status: of what is run]
          todo,   \* words not looked at yet
          first,  \* nothing was looked at yet
          extra,  \* options for the plugin
          res     \* <<>>, or what was done: <<[did, argv, ld, status]>>
vars == <<inp, todo, first, extra, res>>

Info == {"--help", "--version", "--list", "--explain"}
Plugin(o) == <<"-Xclang", "-plugin-arg-clazy", "-Xclang", o>>
Own == [o \in {"--qtdeveloper", "--visit-implicit-code"} |-> IF o = "--qtdeveloper" THEN "qt-developer" ELSE "visit-implicit-code"]
Load == <<"-Qunused-arguments", "-Xclang", "-load", "-Xclang", "ClazyPlugin.so", "-Xclang", "-add-plugin", "-Xclang", "clazy">>

Reset(x) == inp = x /\ todo = x.argv /\ first = TRUE /\ extra = <<>> /\ res = <<>>
Restart(x) == inp' = x /\ todo' = x.argv /\ first' = TRUE /\ extra' = <<>> /\ res' = <<>>
More == todo # <<>>
Word == todo[1]
Did(w, argv, ld, status) == res' = <<[did |-> w, argv |-> argv, ld |-> ld, status |-> status]>> /\ UNCHANGED <<inp, todo, first, extra>>

(* where the plugin's library is, before the caller's own folders *)
Ld == (CASE inp.layout = "installed" -> <<"LIB">> [] inp.layout = "build" -> <<"BUILDLIB">> [] OTHER -> <<>>) \o inp.ld

Inform == /\ res = <<>> /\ first /\ More /\ Word \in Info
          /\ Did(Word, <<>>, <<>>, 0)
Take == /\ res = <<>> /\ More /\ Word \in DOMAIN Own
        /\ extra' = extra \o Plugin(Own[Word])
        /\ todo' = Tail(todo) /\ first' = FALSE /\ UNCHANGED <<inp, res>>
Launching == res = <<>> /\ ~(More /\ Word \in DOMAIN Own) /\ ~(first /\ More /\ Word \in Info)
(* without the headers that jni-signatures needs nothing is compiled, and that is no success *)
Refuse == /\ Launching /\ inp.jni = "on" /\ inp.ndk = ""
          /\ Did("refuse", <<>>, <<>>, 1)
Jni == IF inp.jni = "on" THEN <<"-idirafter" \o inp.ndk \o "/sysroot/usr/include">> ELSE <<>>
Compile == /\ Launching /\ ~(inp.jni = "on" /\ inp.ndk = "") /\ ~(More /\ Word = "--standalone")
           /\ Did("compile", Load \o extra \o Jni \o todo, Ld, inp.status)
Standalone == /\ Launching /\ ~(inp.jni = "on" /\ inp.ndk = "") /\ More /\ Word = "--standalone"
              /\ Did("standalone", Tail(todo), Ld, inp.status)
Read == Inform \/ Take \/ Refuse \/ Compile \/ Standalone
Done == res # <<>>

(* the arguments behind the wrapper's own are all there, in order, and last *)
Rest(a) == SelectInSeq(a, LAMBDA w : w \notin DOMAIN Own)
Behind(a) == IF Rest(a) = 0 THEN <<>> ELSE SubSeq(a, Rest(a), Len(a))
InvPassed == Done /\ res[1].did = "compile" => LET b == Behind(inp.argv) r == res[1].argv IN
                /\ Len(r) >= Len(b) /\ SubSeq(r, Len(r) - Len(b) + 1, Len(r)) = b
                /\ SubSeq(r, 1, Len(Load)) = Load
InvStatus == Done /\ res[1].did \in {"compile", "standalone"} => res[1].status = inp.status
InvNoEmptySuccess == Done /\ res[1].status = 0 => res[1].did # "refuse"
InvLd == Done /\ res[1].did \in {"compile", "standalone"} => IsSuffix(inp.ld, res[1].ld) /\ "" \notin Range(res[1].ld)
=============================================================================
