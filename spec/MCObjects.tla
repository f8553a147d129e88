----------------------------- MODULE MCObjects ------------------------------
(***************************************************************************)
(* The object machine with a small schema and a finite set of operations,  *)
(* explored completely.  VP_MC: [types, ops, print].  Every transition is  *)
(* printed; the harness walks all of them in the generated code.           *)
(*                                                                         *)
(* The invariants are the laws a user relies on, stated independently of   *)
(* how Encode, Decode and Size are defined.                                *)
(***************************************************************************)
EXTENDS Objects, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.VP_MC)
SchemaVal == JsonDeserialize(IOEnv.VP_SCHEMA)
SchemaDef == SchemaVal
Types == Cfg.types
Ops == Cfg.ops

VARIABLE slots
Vals(s) == [i \in 1..Len(s) |-> s[i].v]
Init == slots = [i \in 1..Len(Types) |-> [m |-> Types[i], v |-> Default(Types[i])]]

Des(s, o) == Decode(s[o.s].m, s[o.s].v, o.d)
Next == \E k \in 1..Len(Ops) :
          LET o == Ops[k] IN
          /\ IF o.o = "des" THEN LET d == Des(slots, o) IN d.err = NoErr /\ d.dev = {} /\ slots' = [slots EXCEPT ![o.s].v = d.v]
             ELSE slots' = Apply(slots, o).slots
          /\ IF Cfg.print THEN PrintT(<<"EDGE", ToJson(Vals(slots)), k, ToJson(Vals(slots'))>>) ELSE TRUE
Spec == Init /\ [][Next]_slots

Fresh(m, d) == Decode(m, Default(m), d)
Good(r) == r.err = NoErr /\ r.dev = {}
Of(i) == slots[i]
Enc(i) == Encode(Of(i).m, Of(i).v)

AllWellFormed == \A i \in 1..Len(slots) : WellFormed(Of(i).m, Of(i).v)
\* C01
RoundTrip == \A i \in 1..Len(slots) : LET r == Fresh(Of(i).m, Enc(i)) IN Good(r) /\ r.v = Of(i).v /\ r.pos = Len(Enc(i))
\* C07
SizeExact == \A i \in 1..Len(slots) : Size(Of(i).m, Of(i).v) = Len(Enc(i))
\* C02: different values have different encodings, the default alone has none.
Injective == \A i, j \in 1..Len(slots) : Of(i).m = Of(j).m => ((Enc(i) = Enc(j)) <=> (Of(i).v = Of(j).v))
\* C03: decoding b behind a is decoding a followed by b; and it is associative with merging.
Merges == \A i, j \in 1..Len(slots) : Of(i).m = Of(j).m =>
            LET both == Fresh(Of(i).m, Enc(i) \o Enc(j))
                step == Decode(Of(i).m, Of(i).v, Enc(j))
            IN both.err = step.err /\ (both.err = NoErr => both.v = step.v)
\* C03: any split of an encoding at which the first part is valid by itself, decoded one after the other.
Splits == \A i \in 1..Len(slots) : \A n \in 0..Len(Enc(i)) :
            LET a == Fresh(Of(i).m, SubSeq(Enc(i), 1, n))
            IN Good(a) => LET b == Decode(Of(i).m, a.v, SubSeq(Enc(i), n + 1, Len(Enc(i)))) IN Good(b) /\ b.v = Of(i).v
\* C04: unknown fields before and behind change nothing.
Unknown == {<<120, 128, 1>>, <<122, 0>>, <<122, 2, 8, 1>>, <<125, 1, 2, 3, 4>>, <<121, 1, 2, 3, 4, 5, 6, 7, 8>>, Tag(536870911, 0) \o <<1>>}
Ignored == \A i \in 1..Len(slots) : \A u \in Unknown : \A n \in 0..Len(Enc(i)) :
             LET a == Fresh(Of(i).m, SubSeq(Enc(i), 1, n))
             IN Good(a) => LET r == Fresh(Of(i).m, SubSeq(Enc(i), 1, n) \o u \o SubSeq(Enc(i), n + 1, Len(Enc(i))))
                           IN Good(r) /\ r.v = Of(i).v
\* C06: a value with one byte missing is an error or what was complete before it.
Cut == \A i \in 1..Len(slots) : \A n \in 0..(Len(Enc(i)) - 1) :
         LET a == Fresh(Of(i).m, SubSeq(Enc(i), 1, n)) IN Good(a) => a.v # Of(i).v /\ Len(Encode(Of(i).m, a.v)) <= n
\* For the harness: every state with the encodings of the slots and the positions between their records.
Shown == Cfg.show => PrintT(<<"STATE", ToJson(Vals(slots)), ToJson([i \in 1..Len(slots) |-> Enc(i)]),
                              ToJson([i \in 1..Len(slots) |-> {n \in 0..Len(Enc(i)) : Good(Fresh(Of(i).m, SubSeq(Enc(i), 1, n)))}])>>)
\* C13
OneActive == \A i \in 1..Len(slots) : OneofOk(Of(i).m, Of(i).v)
=============================================================================
