------------------------------- MODULE MCGen --------------------------------
(***************************************************************************)
(* Writing the header of all programs of N messages in one file: every     *)
(* nesting, every set of references between different messages, and (with  *)
(* Enums) from messages to enums defined inside messages.                  *)
(*                                                                         *)
(* The machine writes class definitions.  Checked: a program that is       *)
(* refused can indeed not be written in any order, and a program that is   *)
(* accepted can: taking classes in dependency order never gets stuck.  So  *)
(* Cyclic of Gen.tla is exactly "no header exists".                        *)
(***************************************************************************)
EXTENDS Gen, Json
CONSTANTS N, Enums, PrintOn, Part, Parts
VARIABLES parent, uses, euses, todo, mode
vars == <<parent, uses, euses, todo, mode>>
Parents == {f \in [1..N -> 0..(N - 1)] : \A i \in 1..N : f[i] < i}
Pairs == {<<i, j>> \in (1..N) \X (1..N) : i # j}
RefsOf(i, u, kind) == LET s == SetToSortSeq({j \in 1..N : <<i, j>> \in u}, LAMBDA a, b : a < b)
                      IN [k \in 1..Len(s) |-> [lab |-> "one", k |-> kind, ref |-> s[k], oo |-> 0, max |-> 0]]
\* Enum j is the one inside message j.
Program == [files |-> <<[syntax |-> "proto3", deps |-> <<>>]>>,
            enums |-> IF Enums THEN [i \in 1..N |-> [parent |-> i, file |-> 1]] ELSE <<>>,
            msgs |-> [i \in 1..N |-> [parent |-> parent[i], file |-> 1, fields |-> RefsOf(i, uses, "msg") \o RefsOf(i, euses, "enum")]]]
Hash(u, e) == FoldSet(LAMBDA x, a : a + x[1] * 5 + x[2] * 3, 0, u) + 7 * Cardinality(u) + FoldSet(LAMBDA x, a : a + x[1] * 11 + x[2] * 4, 0, e)
Init == /\ parent \in Parents /\ uses \in SUBSET Pairs
        /\ euses \in (IF Enums THEN {e \in SUBSET Pairs : e \cap uses = {}} ELSE {{}})
        /\ (Parts = 1 \/ Hash(uses, euses) % Parts = Part)
        /\ todo = 1..N /\ mode \in {"any", "ready"}

(* A class is closed when the classes inside it and the classes its fields *)
(* need are closed.  Enums are written first in a class, so they can be    *)
(* used inside it.  Between opening and closing a class only classes       *)
(* inside it can be written.                                               *)
Anc(i) == AncestorsOf(Program, i)
Inside(i) == {j \in 1..N : j # i /\ i \in Anc(j)}
Open == {i \in todo : Inside(i) \ todo # {}}
NeedsOf(i) == {j \in 1..N : <<i, j>> \in uses} \cup ({j \in 1..N : <<i, j>> \in euses} \ Anc(i))
CanClose(i) == /\ i \in todo /\ Inside(i) \cap todo = {}
               /\ NeedsOf(i) \cap todo = {}
               /\ \A o \in Open : o \in Anc(i)
\* Opening a class only when everything needed in it from outside is there.
Ready(i) == \A a \in Anc(i) \ Open :
              (UNION {NeedsOf(j) : j \in {a} \cup Inside(a)} \ ({a} \cup Inside(a))) \cap todo = {}
Next == \E i \in 1..N : CanClose(i) /\ (mode = "ready" => Ready(i)) /\ todo' = todo \ {i} /\ UNCHANGED <<parent, uses, euses, mode>>
Spec == Init /\ [][Next]_vars

Refused == Cyclic(Program) => todo # {}
Writable == (mode = "ready" /\ ~Cyclic(Program) /\ todo # {}) => ENABLED Next
Printed == (PrintOn /\ todo = 1..N /\ mode = "any") => PrintT(<<"PROG", ToJson([parent |-> parent, uses |-> uses, euses |-> euses])>>)
=============================================================================
