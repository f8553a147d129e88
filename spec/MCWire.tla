------------------------------- MODULE MCWire -------------------------------
(***************************************************************************)
(* Laws of the primitive layer on complete small domains: 32 bit values    *)
(* with two free bytes and a sign pattern, 64 bit values likewise, and all *)
(* byte strings of a given length over an alphabet of critical bytes.      *)
(***************************************************************************)
EXTENDS Wire
MaxOf(a, b) == IF a > b THEN a ELSE b
CONSTANTS Free, Alphabet, MaxLen
VARIABLES k, v, d
vars == <<k, v, d>>
Kinds32 == {"int32", "uint32", "sint32", "enum", "fixed32", "sfixed32", "float"}
Kinds64 == {"int64", "uint64", "sint64", "fixed64", "sfixed64", "double"}
Vals4 == {<<a, x, x, c>> : a \in Free, c \in Free, x \in {0, 127, 128, 255}}
Vals8 == {<<a, x, x, y, x, x, x, c>> : a \in Free, c \in Free, x \in {0, 128, 255}, y \in {0, 1, 254}}
Init == \/ k \in Kinds32 /\ v \in Vals4 /\ d = <<>>
        \/ k \in Kinds64 /\ v \in Vals8 /\ d = <<>>
        \/ k = "bool" /\ v \in {<<0>>, <<1>>} /\ d = <<>>
        \/ k \in {"uint32", "int32", "uint64", "bool"} /\ v = <<>> /\ \E n \in 0..MaxLen : d \in [1..n -> Alphabet]
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

ReadsBack == v # <<>> => LET e == EncScalar(k, v)
                           r == DecScalar(k, e, 0, Len(e))
                       IN r.err = NoErr /\ r.v = v /\ r.pos = Len(e)
ZigZagInverse == (v # <<>> /\ k # "bool") => UnZigZag(ZigZag(v)) = v /\ ZigZag(UnZigZag(v)) = v
Minimal == (v # <<>> /\ WireTypeOf(k) = WtVarint) => LET e == EncScalar(k, v) IN e[Len(e)] # 0 \/ Len(e) = 1
\* Reading consumes within the data, and cutting the data makes it fail.
Sane == v = <<>> => LET r == DecScalar(k, d, 0, Len(d))
                    IN /\ r.pos <= Len(d) \/ r.err # NoErr
                       /\ r.err = NoErr => DecScalar(k, d, 0, r.pos - 1).err = EndOfBuffer
                       \* Re-encoding gives the minimal form of the same value.
                       /\ r.err = NoErr => LET e == EncScalar(k, r.v) IN DecScalar(k, e, 0, Len(e)).v = r.v /\ (k # "bool" => Len(e) <= MaxOf(5, r.pos))
=============================================================================
