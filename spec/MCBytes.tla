------------------------------ MODULE MCBytes -------------------------------
(***************************************************************************)
(* All byte strings over an alphabet decoded into a new message of type    *)
(* Cfg.m, extended as long as more bytes can still matter.                 *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.VP_MC)
SchemaVal == JsonDeserialize(IOEnv.VP_SCHEMA)
SchemaDef == SchemaVal
Alphabet == {Cfg.alphabet[i] : i \in 1..Len(Cfg.alphabet)}
VARIABLES d, dead
vars == <<d, dead>>
Fresh(b) == Decode(Cfg.m, Default(Cfg.m), b)
Good(r) == r.err = NoErr /\ r.dev = {}
Final(r) == r.err \notin {NoErr, EndOfBuffer}
Init == d = <<>> /\ dead = FALSE
Next == /\ Len(d) < Cfg.len /\ ~dead
        /\ \E a \in Alphabet : d' = Append(d, a) /\ dead' = Final(Fresh(d'))
Spec == Init /\ [][Next]_vars

Printed == PrintT("STR:" \o ToJson(d))
\* An error other than a missing rest is final, whatever follows.
Stable == dead => \A a \in {0, 1, 2, 127, 128, 255} : Fresh(Append(d, a)).err # NoErr
\* What is accepted is well formed, reads back from its own encoding and that is not longer.
Canonical == LET r == Fresh(d)
             IN Good(r) => LET e == Encode(Cfg.m, r.v)
                               q == Fresh(e)
                           IN WellFormed(Cfg.m, r.v) /\ Good(q) /\ q.v = r.v /\ Len(e) <= Len(d)
\* Decoding stays within the string, and a success uses all of it.
Within == LET r == Fresh(d) IN r.pos <= Len(d) /\ (r.err = NoErr => r.pos = Len(d))
=============================================================================
