------------------------------ MODULE MCSession ------------------------------
EXTENDS Session
P == JsonDeserialize(IOEnv.PARAMS)
Init == \E n \in 1..P.max : \E us \in [1..n -> DOMAIN P.pool] : \E m \in Range(P.modes) :
          StartWith([front |-> m.front, onlyQt |-> m.onlyQt, export |-> m.export, tus |-> [k \in 1..n |-> P.pool[us[k]]]])
Spec == Init /\ [][Next]_vars
Emit == Done => PrintT("@" \o ToJson([front |-> inp.front, onlyQt |-> inp.onlyQt, export |-> inp.export, names |-> [k \in DOMAIN inp.tus |-> inp.tus[k].name],
                  reported |-> Sorted(All), files |-> [k \in DOMAIN files |-> [tu |-> files[k].tu, ids |-> Sorted(files[k].ids)]], failed |-> failed]))
=============================================================================
