------------------------------ MODULE TracePrim -----------------------------
(***************************************************************************)
(* Decides recorded calls of the primitive wire functions and the scalar   *)
(* field wrappers.  Every call stands alone; BatchLen of them make a step. *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils, FiniteSets

EventVal == ndJsonDeserialize(IOEnv.VP_TRACES)
CONSTANT Events
EventsDef == EventVal
BatchLen == 50

Prefix(p, s) == Len(p) <= Len(s) /\ \A i \in 1..Len(p) : p[i] = s[i]

\* Written into a buffer with room for cap bytes.
WriteOk(e, want) ==
  IF Len(want) <= e.cap THEN e.err = NoErr /\ e.bytes = want
  ELSE e.err = BufferFull /\ Prefix(e.bytes, want)

\* A result r = [err, pos, v] of reading, old the value before.
ReadOk(e, r, old) == IF r.err = NoErr THEN e.err = NoErr /\ e.pos = r.pos /\ e.val = r.v
                     ELSE e.err = r.err /\ e.val = old

(* Comparing values. *)
RECURSIVE LessFrom(_, _, _)
\* a < b as unsigned numbers, considering the bytes up to i.
LessFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessFrom(a, b, i - 1)
ULess(a, b) == LessFrom(a, b, Len(a))
Neg(a) == a[Len(a)] >= 128
SLess(a, b) == IF Neg(a) # Neg(b) THEN Neg(a) ELSE ULess(a, b)
Abs(a) == [a EXCEPT ![Len(a)] = @ % 128]
InfOf(n) == IF n = 4 THEN <<0, 0, 128, 127>> ELSE <<0, 0, 0, 0, 0, 0, 240, 127>>
IsNan(a) == ULess(InfOf(Len(a)), Abs(a))
FZero(a) == IsZero(Abs(a))
FLess(a, b) == /\ ~IsNan(a) /\ ~IsNan(b) /\ ~(FZero(a) /\ FZero(b))
               /\ IF Neg(a) # Neg(b) THEN Neg(a) ELSE IF Neg(a) THEN ULess(b, a) ELSE ULess(a, b)
FEqual(a, b) == ~IsNan(a) /\ ~IsNan(b) /\ (a = b \/ (FZero(a) /\ FZero(b)))
Less(k, a, b) == CASE k \in {"float", "double"} -> FLess(a, b)
                   [] k \in {"int32", "int64", "sint32", "sint64", "sfixed32", "sfixed64"} -> SLess(a, b)
                   [] OTHER -> ULess(a, b)
Equal(k, a, b) == IF k \in {"float", "double"} THEN FEqual(a, b) ELSE a = b
CmpOf(k, a, b) == LET eq == Equal(k, a, b)
                      lt == Less(k, a, b)
                      gt == Less(k, b, a)
                  IN <<eq, ~eq, gt, lt, gt \/ eq, lt \/ eq>>

\* Wrappers of different kinds compare by their numeric value.
Signed == {"int32", "int64", "sint32", "sint64", "sfixed32", "sfixed64"}
Widen(k, a) == a \o [i \in 1..(8 - Len(a)) |-> IF k \in Signed /\ Neg(a) THEN 255 ELSE 0]

TagVal(num, wt) == LET r == ReadVarint(Tag(num, wt), 0, Len(Tag(num, wt)), 4, 5) IN r.v

Ok(e) ==
  CASE e.fn \in {"wtag", "wfid", "wfin"} -> WriteOk(e, Tag(e.num, WireTypeOf(e.k)) \o EncScalar(e.k, e.v)) /\ e.size = Len(EncScalar(e.k, e.v))
    [] e.fn \in {"wraw", "wfld"} -> WriteOk(e, EncScalar(e.k, e.v)) /\ e.size = Len(EncScalar(e.k, e.v))
    [] e.fn \in {"rraw", "rfld"} -> ReadOk(e, DecScalar(e.k, e.d, 0, Len(e.d)), e.v)
    [] e.fn = "rchk" -> IF e.wt # WireTypeOf(e.k) THEN e.err = InvalidWiretype /\ e.val = e.v
                        ELSE ReadOk(e, DecScalar(e.k, e.d, 0, Len(e.d)), e.v)
    [] e.fn = "read" /\ e.k = "varint32" -> ReadOk(e, ReadVarint(e.d, 0, Len(e.d), 4, 5), e.v)
    [] e.fn = "read" /\ e.k = "varint64" -> ReadOk(e, ReadVarint(e.d, 0, Len(e.d), 8, 10), e.v)
    [] e.fn = "enc" -> e.val = ZigZag(e.v)
    [] e.fn = "dec" -> e.val = UnZigZag(e.v)
    [] e.fn = "make" -> e.val = TagVal(e.num, e.wt)
    [] e.fn = "read" /\ e.k = "tag" ->
         LET r == ReadTag(e.d, 0, Len(e.d))
         IN IF r.err = NoErr THEN e.err = NoErr /\ e.pos = r.pos /\ e.wtgot = r.wt /\ e.num = r.num
            ELSE e.err = r.err /\ e.wtgot = WtLen /\ e.num = 74565
    [] e.fn = "cmp" -> LET c == CmpOf(e.k, e.v, e.w) IN e.cmp = c \o c
    [] e.fn = "xcmp" -> e.cmp = CmpOf(e.k, Widen(e.k, e.v), Widen(e.k2, e.w))
    [] e.fn = "wrap" -> LET want == IF e.how = 10 THEN Zeros(Width(e.k)) ELSE e.w
                        IN e.x = want /\ e.conv = want /\ e.y = e.w /\ e.same
    [] OTHER -> FALSE

VARIABLES b
NBatch == (Len(Events) + BatchLen - 1) \div BatchLen
Init == b \in {-i : i \in 1..NBatch}
Judge(i) == IF Ok(Events[i]) THEN TRUE ELSE PrintT(<<"REJECT", i>>)
Next == /\ b < 0 /\ b' = -b
        /\ \A i \in ((-b - 1) * BatchLen + 1)..(IF -b * BatchLen < Len(Events) THEN -b * BatchLen ELSE Len(Events)) : Judge(i)
        /\ PrintT(<<"DONE", -b>>)
Spec == Init /\ [][Next]_b
=============================================================================
