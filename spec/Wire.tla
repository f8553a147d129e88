-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The primitive layer of the Protocol Buffers wire format as Embedded     *)
(* Proto promises it.  Bytes are integers 0..255.  Scalars are little      *)
(* endian byte tuples of 1 (bool), 4 or 8 bytes because TLC integers have  *)
(* 32 bits.  Positions count consumed bytes: the next byte is d[pos+1].    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

NoErr == 0
EndOfBuffer == 1
BufferFull == 2
InvalidWiretype == 3
ArrayFull == 4
InvalidFieldId == 5
OverlongVarint == 6
IndexOutOfBound == 7

P2 == [i \in 0..8 |-> CASE i = 0 -> 1 [] i = 1 -> 2 [] i = 2 -> 4 [] i = 3 -> 8
        [] i = 4 -> 16 [] i = 5 -> 32 [] i = 6 -> 64 [] i = 7 -> 128 [] OTHER -> 256]

Zeros(n) == TLCEval([i \in 1..n |-> 0])
IsZero(b) == \A i \in 1..Len(b) : b[i] = 0

\* Take care of tuples shorter than asked for.
At(b, i) == IF i >= 1 /\ i <= Len(b) THEN b[i] ELSE 0
Resize(b, n) == TLCEval([i \in 1..n |-> At(b, i)])

(*************************** integers as tuples ****************************)
\* A small natural number as n little endian bytes.
RECURSIVE NatBytes(_, _)
NatBytes(x, n) == IF n = 0 THEN <<>> ELSE <<x % 256>> \o NatBytes(x \div 256, n - 1)

\* The value of a 4 byte tuple, saturated such that TLC can compute with it.
Saturated == 1073741824
ToNat(b) == IF At(b, 4) >= 64 THEN Saturated
            ELSE At(b, 1) + 256 * At(b, 2) + 65536 * At(b, 3) + 16777216 * At(b, 4)

(******************************** varints **********************************)
NGroups(nbytes) == IF nbytes = 4 THEN 5 ELSE 10

\* Seven bit group g (0 based) of the little endian tuple b.
Group(b, g) == LET q == (7 * g) \div 8
                   r == (7 * g) % 8
               IN ((At(b, q + 1) \div P2[r]) + (At(b, q + 2) * P2[8 - r])) % 128

\* Byte j (0 based) of the number made of the seven bit groups gs.
FromGroup(gs, j) == LET q == (8 * j) \div 7
                        r == (8 * j) % 7
                    IN ((At(gs, q + 1) \div P2[r]) + (At(gs, q + 2) * P2[7 - r])) % 256

NSignificant(b) == LET gs == TLCEval([g \in 1..NGroups(Len(b)) |-> Group(b, g - 1)])
                       used == {g \in 1..Len(gs) : gs[g] # 0}
                   IN IF used = {} THEN 1 ELSE CHOOSE g \in used : \A h \in used : h <= g

\* The minimal varint of a 4 or 8 byte tuple.
Varint(b) == LET n == NSignificant(b)
             IN TLCEval([g \in 1..n |-> Group(b, g - 1) + (IF g < n THEN 128 ELSE 0)])

\* The minimal varint of a small natural number.
RECURSIVE VarintNat(_)
VarintNat(x) == IF x < 128 THEN <<x>> ELSE <<128 + (x % 128)>> \o VarintNat(x \div 128)
RECURSIVE VarintNatLen(_)
VarintNatLen(x) == IF x < 128 THEN 1 ELSE 1 + VarintNatLen(x \div 128)

\* The number of bytes of the varint at pos: 0 when the data ends first, -1 when it does not end
\* within max bytes.
RECURSIVE VarintEnd(_, _, _, _, _)
VarintEnd(d, pos, end, k, max) ==
  IF k > max THEN -1
  ELSE IF pos + k > end THEN 0
  ELSE IF d[pos + k] < 128 THEN k
  ELSE VarintEnd(d, pos, end, k + 1, max)

\* Read a varint into an unsigned integer of nbytes bytes, excess high bits are lost.
\* max is the number of bytes the varint may have.
ReadVarint(d, pos, end, nbytes, max) ==
  LET k == VarintEnd(d, pos, end, 1, max)
  IN IF k = -1 THEN [err |-> OverlongVarint, pos |-> pos + max, v |-> <<>>]
     ELSE IF k = 0 THEN [err |-> EndOfBuffer, pos |-> end, v |-> <<>>]
     ELSE LET gs == TLCEval([g \in 1..k |-> d[pos + g] % 128])
          IN [err |-> NoErr, pos |-> pos + k, v |-> TLCEval([j \in 1..nbytes |-> FromGroup(gs, j - 1)])]

(********************************* zigzag **********************************)
Flip(b) == TLCEval([i \in 1..Len(b) |-> 255 - b[i]])
Shl1(b) == TLCEval([i \in 1..Len(b) |-> ((b[i] * 2) % 256) + (At(b, i - 1) \div 128)])
Shr1(b) == TLCEval([i \in 1..Len(b) |-> (b[i] \div 2) + (At(b, i + 1) % 2) * 128])
ZigZag(b) == IF b[Len(b)] >= 128 THEN Flip(Shl1(b)) ELSE Shl1(b)
UnZigZag(b) == IF b[1] % 2 = 1 THEN Flip(Shr1(b)) ELSE Shr1(b)

(******************************** wire types *******************************)
WtVarint == 0
WtFixed64 == 1
WtLen == 2
WtStartGroup == 3
WtEndGroup == 4
WtFixed32 == 5

Tag(num, wt) ==
  LET first == (num % 16) * 8 + wt
      rest == num \div 16
  IN IF rest = 0 THEN <<first>> ELSE <<128 + first>> \o VarintNat(rest)

\* Read a tag: 32 bit, at most 5 bytes.
ReadTag(d, pos, end) ==
  LET r == ReadVarint(d, pos, end, 4, 5)
  IN IF r.err # NoErr THEN [err |-> r.err, pos |-> r.pos, num |-> 0, wt |-> 0]
     ELSE IF r.v[1] % 8 > 5 THEN [err |-> InvalidWiretype, pos |-> r.pos, num |-> 0, wt |-> 0]
     ELSE [err |-> NoErr, pos |-> r.pos, wt |-> r.v[1] % 8,
           num |-> (r.v[1] \div 8) + r.v[2] * 32 + r.v[3] * 8192 + r.v[4] * 2097152]

(********************************* scalars *********************************)
ScalarKinds == {"int32", "int64", "uint32", "uint64", "sint32", "sint64", "bool", "enum",
                "fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double"}

\* Number of bytes of the value of a scalar kind.
Width(k) == CASE k \in {"int32", "uint32", "sint32", "enum", "fixed32", "sfixed32", "float"} -> 4
              [] k = "bool" -> 1
              [] OTHER -> 8

WireTypeOf(k) == CASE k \in {"fixed32", "sfixed32", "float"} -> WtFixed32
                   [] k \in {"fixed64", "sfixed64", "double"} -> WtFixed64
                   [] k \in {"string", "bytes", "msg"} -> WtLen
                   [] OTHER -> WtVarint

EncScalar(k, v) == CASE k \in {"int32", "int64", "uint32", "uint64", "enum"} -> Varint(v)
                     [] k \in {"sint32", "sint64"} -> Varint(ZigZag(v))
                     [] k = "bool" -> v
                     [] OTHER -> v

\* How many bytes a varint of this kind may have: the signed kinds, bool and enum are read as 64 bit.
MaxVarint(k) == IF k = "uint32" THEN 5 ELSE 10

DecScalar(k, d, pos, end) ==
  IF WireTypeOf(k) = WtVarint THEN
    LET w == IF k = "bool" THEN 8 ELSE Width(k)
        r == ReadVarint(d, pos, end, w, MaxVarint(k))
    IN IF r.err # NoErr THEN r
       ELSE [r EXCEPT !.v = CASE k = "bool" -> <<IF IsZero(r.v) THEN 0 ELSE 1>>
                              [] k \in {"sint32", "sint64"} -> UnZigZag(r.v)
                              [] OTHER -> r.v]
  ELSE LET w == Width(k)
       IN IF pos + w > end THEN [err |-> EndOfBuffer, pos |-> end, v |-> <<>>]
          ELSE [err |-> NoErr, pos |-> pos + w, v |-> SubSeq(d, pos + 1, pos + w)]
=============================================================================
