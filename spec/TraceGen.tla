------------------------------ MODULE TraceGen ------------------------------
(* Observations of generated code judged by the specification: a line has  *)
(* the program p, per message what was observed (obs) and the values of    *)
(* the enums (enums); ids tells whether identifiers were recorded.         *)
EXTENDS Gen, Json, IOUtils
Lines == ndJsonDeserialize(IOEnv.VP_PROGRAMS)
CONSTANT Observed
ObservedDef == Lines
VARIABLE i
Wrong(l) == {<<"capacity", m>> : m \in {m \in Msgs(l.p) : ~CapsOk(l.p, m, l.obs[m])}}
            \cup IF l.ids THEN {<<"identifier", m>> : m \in {m \in Msgs(l.p) : ~IdsOk(l.p, m, l.obs[m])}}
                               \cup {<<"enum", e>> : e \in {e \in 1..Len(l.p.enums) : ~EnumOk(l.p, e, l.enums[e])}}
               ELSE {}
Init == i \in {-j : j \in 1..Len(Observed)}
Next == i < 0 /\ i' = -i /\ PrintT(<<"JUDGED", -i, ToJson(Wrong(Observed[-i]))>>)
Spec == Init /\ [][Next]_i
=============================================================================
