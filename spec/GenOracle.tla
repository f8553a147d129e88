----------------------------- MODULE GenOracle ------------------------------
(* What the specification expects of the programs in a file, one per line. *)
EXTENDS Gen, Json, IOUtils
ProgramVal == ndJsonDeserialize(IOEnv.VP_PROGRAMS)
CONSTANT Programs
ProgramsDef == ProgramVal
VARIABLE i
Init == i \in {-j : j \in 1..Len(Programs)}
Next == i < 0 /\ i' = -i /\ PrintT(<<"EXPECT", -i, ToJson(Expect(Programs[-i]))>>)
Spec == Init /\ [][Next]_i
=============================================================================
