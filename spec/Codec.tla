------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Messages: values, encoding, sizes and decoding, parametric in a schema. *)
(*                                                                         *)
(* Schema is a sequence of message types.  A message type is a record      *)
(*   fields : sequence of fields in declaration order                      *)
(*   ord    : the field indices in serialization order                     *)
(*   byNum  : (derived below)                                              *)
(* a field is a record                                                     *)
(*   num field number     k   kind                                         *)
(*   lab "one" | "opt" | "rep"        oo  oneof index, 0 when in none      *)
(*   max maximum length of a string or bytes (element)                     *)
(*   rmax maximum number of elements  msg index of the message type, or 0  *)
(*                                                                         *)
(* A message value is a sequence with for each field                       *)
(*   the value                       (lab "one", not in a oneof)           *)
(*   <<>> or <<value>>               (lab "opt" or member of a oneof)      *)
(*   the sequence of elements        (lab "rep")                           *)
(***************************************************************************)
EXTENDS Wire, FiniteSets, FiniteSetsExt

CONSTANT Schema

Fields(m) == Schema[m].fields
Tracked(f) == f.lab = "opt" \/ f.oo # 0
IsBytes(f) == f.k \in {"string", "bytes"}
IsMsg(f) == f.k = "msg"
IsPacked(f) == f.k \in ScalarKinds

RECURSIVE Default(_)
BareDefault(f) == IF IsMsg(f) THEN Default(f.msg) ELSE IF IsBytes(f) THEN <<>> ELSE Zeros(Width(f.k))
Default(m) == TLCEval([i \in 1..Len(Fields(m)) |->
                 LET f == Fields(m)[i] IN
                 IF f.lab = "rep" \/ Tracked(f) THEN <<>> ELSE BareDefault(f)])

(****************************** well formed ********************************)
RECURSIVE WellFormed(_, _)
BareOk(f, v) == IF IsMsg(f) THEN WellFormed(f.msg, v)
                ELSE IF IsBytes(f) THEN Len(v) <= f.max
                ELSE Len(v) = Width(f.k)
FieldOk(f, v) == IF f.lab = "rep" THEN Len(v) <= f.rmax /\ \A j \in 1..Len(v) : BareOk(f, v[j])
                 ELSE IF Tracked(f) THEN Len(v) <= 1 /\ \A j \in 1..Len(v) : BareOk(f, v[j])
                 ELSE BareOk(f, v)
OneofOk(m, v) == LET mem == {i \in 1..Len(v) : Fields(m)[i].oo # 0 /\ v[i] # <<>>}
                 IN \A i, j \in mem : i # j => Fields(m)[i].oo # Fields(m)[j].oo
WellFormed(m, v) == /\ Len(v) = Len(Fields(m))
                    /\ \A i \in 1..Len(v) : FieldOk(Fields(m)[i], v[i])
                    /\ OneofOk(m, v)

(******************************** encoding *********************************)
LenDelimited(bytes) == VarintNat(Len(bytes)) \o bytes

\* The concatenation, in halves: long fields need no deep recursion.
RECURSIVE Flat(_)
Flat(s) == IF Len(s) <= 32 THEN FlattenSeq(s)
           ELSE Flat(SubSeq(s, 1, Len(s) \div 2)) \o Flat(SubSeq(s, Len(s) \div 2 + 1, Len(s)))

RECURSIVE Encode(_, _)
\* The payload of one value, without tag.
EncBare(f, v) == IF IsMsg(f) THEN LenDelimited(Encode(f.msg, v))
                 ELSE IF IsBytes(f) THEN LenDelimited(v)
                 ELSE EncScalar(f.k, v)
EncTagged(f, v) == Tag(f.num, WireTypeOf(f.k)) \o EncBare(f, v)

EncField(f, v) ==
  IF f.lab = "rep" THEN
    IF v = <<>> THEN <<>>
    ELSE IF IsPacked(f) THEN Tag(f.num, WtLen) \o LenDelimited(Flat(TLCEval([j \in 1..Len(v) |-> EncScalar(f.k, v[j])])))
    ELSE Flat(TLCEval([j \in 1..Len(v) |-> EncTagged(f, v[j])]))
  ELSE IF Tracked(f) THEN IF v = <<>> THEN <<>> ELSE EncTagged(f, v[1])
  ELSE IF IsMsg(f) THEN LET e == Encode(f.msg, v) IN IF e = <<>> THEN <<>> ELSE Tag(f.num, WtLen) \o LenDelimited(e)
  ELSE IF IsBytes(f) THEN IF v = <<>> THEN <<>> ELSE EncTagged(f, v)
  ELSE IF IsZero(v) THEN <<>> ELSE EncTagged(f, v)

Encode(m, v) == LET o == Schema[m].ord
                IN FlattenSeq(TLCEval([j \in 1..Len(o) |-> EncField(Fields(m)[o[j]], v[o[j]])]))

(********************** size, defined independently ************************)
SizeScalar(k, v) == IF WireTypeOf(k) = WtFixed32 THEN 4 ELSE IF WireTypeOf(k) = WtFixed64 THEN 8
                    ELSE IF k = "bool" THEN 1
                    ELSE IF k \in {"sint32", "sint64"} THEN NSignificant(ZigZag(v)) ELSE NSignificant(v)
TagSize(num) == IF num < 16 THEN 1 ELSE 1 + VarintNatLen(num \div 16)
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

RECURSIVE Size(_, _)
SizeBare(f, v) == IF IsMsg(f) THEN LET s == Size(f.msg, v) IN VarintNatLen(s) + s
                  ELSE IF IsBytes(f) THEN VarintNatLen(Len(v)) + Len(v)
                  ELSE SizeScalar(f.k, v)
SizeField(f, v) ==
  IF f.lab = "rep" THEN
    IF v = <<>> THEN 0
    ELSE IF IsPacked(f) THEN LET s == SumSeq(TLCEval([j \in 1..Len(v) |-> SizeScalar(f.k, v[j])]))
                             IN TagSize(f.num) + VarintNatLen(s) + s
    ELSE SumSeq(TLCEval([j \in 1..Len(v) |-> TagSize(f.num) + SizeBare(f, v[j])]))
  ELSE IF Tracked(f) THEN IF v = <<>> THEN 0 ELSE TagSize(f.num) + SizeBare(f, v[1])
  ELSE IF IsMsg(f) THEN LET s == Size(f.msg, v) IN IF s = 0 THEN 0 ELSE TagSize(f.num) + VarintNatLen(s) + s
  ELSE IF IsBytes(f) THEN IF v = <<>> THEN 0 ELSE TagSize(f.num) + SizeBare(f, v)
  ELSE IF IsZero(v) THEN 0 ELSE TagSize(f.num) + SizeScalar(f.k, v)
Size(m, v) == SumSeq(TLCEval([i \in 1..Len(v) |-> SizeField(Fields(m)[i], v[i])]))

(******************************** decoding *********************************)
(* Decoding merges into v.  The result has                                 *)
(*   err  the error, v the message after decoding (meaningful when NoErr), *)
(*   pos  the position after the last byte consumed,                       *)
(*   dev  the recorded findings met on the way: "trunc_tag" a tag that is  *)
(*        cut short by the end of the enclosing message counts as the end, *)
(*        "trunc_unknown" an unknown length delimited field running over   *)
(*        the end of the enclosing message counts as ending there.  With a *)
(*        non empty dev the ideal answer is an error.                      *)
(***************************************************************************)
\* alt: other errors that describe the same malformed field just as well.
R(err, v, pos, dev) == [err |-> err, v |-> v, pos |-> pos, dev |-> dev, alt |-> {}]
Alt(r, also) == [r EXCEPT !.alt = also]

\* Read the length of a length delimited field.
ReadLen(d, pos, end) == LET r == ReadVarint(d, pos, end, 4, 5)
                        IN [err |-> r.err, pos |-> r.pos, n |-> IF r.err = NoErr THEN ToNat(r.v) ELSE 0]

ActivateOneof(m, v, i) ==
  \* Make member i the active one: others are dropped, i starts from its default when it was inactive.
  LET f == Fields(m)[i] IN
  TLCEval([j \in 1..Len(v) |-> IF j = i THEN (IF v[i] = <<>> THEN <<BareDefault(f)>> ELSE v[i])
                       ELSE IF Fields(m)[j].oo = f.oo THEN <<>> ELSE v[j]])
Activate(m, v, i) ==
  LET f == Fields(m)[i] IN
  IF f.oo # 0 THEN ActivateOneof(m, v, i)
  ELSE IF f.lab = "opt" /\ v[i] = <<>> THEN [v EXCEPT ![i] = <<BareDefault(f)>>]
  ELSE v

FieldIndex(m, num) == LET c == {i \in 1..Len(Fields(m)) : Fields(m)[i].num = num}
                      IN IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE

RECURSIVE DecMsg(_, _, _, _, _), DecLoop(_, _, _, _, _, _), DecPacked(_, _, _, _, _)

\* A string or bytes value: result v is the content.
DecBytes(f, d, pos, end) ==
  LET l == ReadLen(d, pos, end)
  IN IF l.err # NoErr THEN R(l.err, <<>>, l.pos, {})
     ELSE IF l.n > f.max THEN Alt(R(ArrayFull, <<>>, l.pos, {}), IF l.pos + l.n > end THEN {EndOfBuffer} ELSE {})
     ELSE IF l.pos + l.n > end THEN R(EndOfBuffer, <<>>, end, {})
     ELSE R(NoErr, SubSeq(d, l.pos + 1, l.pos + l.n), l.pos + l.n, {})

\* A sub-message merged into old.
DecSub(f, old, d, pos, end) ==
  LET l == ReadLen(d, pos, end)
      short == l.pos + l.n > end
      e == IF short THEN end ELSE l.pos + l.n
      r == DecMsg(f.msg, old, d, l.pos, e)
  IN IF l.err # NoErr THEN R(l.err, old, l.pos, {})
     ELSE IF r.err = NoErr /\ short /\ "trunc_unknown" \notin r.dev THEN R(EndOfBuffer, r.v, r.pos, r.dev)
     ELSE IF short THEN Alt(r, r.alt \cup {EndOfBuffer}) ELSE r

DecBare(f, old, d, pos, end) ==
  IF IsMsg(f) THEN DecSub(f, old, d, pos, end)
  ELSE IF IsBytes(f) THEN DecBytes(f, d, pos, end)
  ELSE LET r == DecScalar(f.k, d, pos, end) IN R(r.err, r.v, r.pos, {})

\* The elements of a packed field up to end, appended to old.
\* Elements of the same width which all fit are taken at once: long fields need no deep recursion.
DecPacked(f, old, d, pos, end) ==
  LET w == IF f.k = "bool" THEN 1 ELSE Width(f.k)
      n == (end - pos) \div w
      even == /\ n > 1 /\ (end - pos) % w = 0 /\ Len(old) + n <= f.rmax
              /\ IF f.k = "bool" THEN \A j \in (pos + 1)..end : d[j] < 128 ELSE WireTypeOf(f.k) # WtVarint
  IN
  IF pos >= end THEN R(NoErr, old, pos, {})
  ELSE IF even THEN
    R(NoErr, old \o TLCEval([j \in 1..n |-> IF f.k = "bool" THEN <<IF d[pos + j] = 0 THEN 0 ELSE 1>>
                                           ELSE SubSeq(d, pos + (j - 1) * w + 1, pos + j * w)]), end, {})
  ELSE LET r == DecScalar(f.k, d, pos, end)
       IN IF r.err # NoErr THEN R(r.err, old, r.pos, {})
          ELSE IF Len(old) >= f.rmax THEN R(ArrayFull, old, r.pos, {})
          ELSE DecPacked(f, Append(old, r.v), d, r.pos, end)

DecRep(f, old, d, pos, end) ==
  IF IsPacked(f) THEN
    LET l == ReadLen(d, pos, end)
        short == l.pos + l.n > end
        r == DecPacked(f, old, d, l.pos, IF short THEN end ELSE l.pos + l.n)
    IN IF l.err # NoErr THEN R(l.err, old, l.pos, {})
       ELSE IF r.err = NoErr /\ short THEN R(EndOfBuffer, r.v, r.pos, {})
       ELSE IF short THEN Alt(r, r.alt \cup {EndOfBuffer}) ELSE r
  ELSE IF Len(old) >= f.rmax THEN Alt(R(ArrayFull, old, pos, {}), LET r == DecBare(f, BareDefault(f), d, pos, end) IN r.alt \cup {r.err})
  ELSE LET r == DecBare(f, BareDefault(f), d, pos, end)
       IN [r EXCEPT !.v = Append(old, r.v)]

\* Field i of message v at pos behind its tag.
DecField(m, v, i, wt, d, pos, end) ==
  LET f == Fields(m)[i]
      fail(e, p, dv) == R(e, v, p, dv)
  IN IF wt # (IF f.lab = "rep" THEN WtLen ELSE WireTypeOf(f.k)) THEN fail(InvalidWiretype, pos, {})
     ELSE IF f.lab = "rep" THEN
       LET r == DecRep(f, v[i], d, pos, end) IN [r EXCEPT !.v = [v EXCEPT ![i] = r.v]]
     ELSE IF Tracked(f) THEN
       LET w == Activate(m, v, i)
           r == DecBare(f, w[i][1], d, pos, end)
       \* No half decoded member of a oneof stays behind.
       IN [r EXCEPT !.v = [w EXCEPT ![i] = IF r.err # NoErr /\ f.oo # 0 THEN <<>> ELSE <<r.v>>]]
     ELSE LET r == DecBare(f, v[i], d, pos, end) IN [r EXCEPT !.v = [v EXCEPT ![i] = r.v]]

\* Skip an unknown field.
SkipField(v, wt, d, pos, end) ==
  CASE wt = WtVarint -> LET r == ReadVarint(d, pos, end, 8, 10) IN R(r.err, v, r.pos, {})
    [] wt = WtFixed64 -> IF pos + 8 > end THEN R(EndOfBuffer, v, end, {}) ELSE R(NoErr, v, pos + 8, {})
    [] wt = WtFixed32 -> IF pos + 4 > end THEN R(EndOfBuffer, v, end, {}) ELSE R(NoErr, v, pos + 4, {})
    [] wt = WtLen -> LET l == ReadLen(d, pos, end)
                     IN IF l.err # NoErr THEN R(l.err, v, l.pos, {})
                        ELSE IF l.pos + l.n > end THEN R(NoErr, v, end, {"trunc_unknown"})
                        ELSE R(NoErr, v, l.pos + l.n, {})
    [] OTHER -> R(InvalidWiretype, v, pos, {})

DecLoop(m, v, d, pos, end, dev) ==
  IF pos >= end THEN R(NoErr, v, pos, dev)
  ELSE LET t == ReadTag(d, pos, end)
       IN IF t.err = EndOfBuffer THEN R(NoErr, v, end, dev \cup {"trunc_tag"})
          ELSE IF t.err # NoErr THEN R(t.err, v, t.pos, dev)
          ELSE IF t.num = 0 THEN R(InvalidFieldId, v, t.pos, dev)
          ELSE LET i == FieldIndex(m, t.num)
                   r == IF i = 0 THEN SkipField(v, t.wt, d, t.pos, end)
                        ELSE DecField(m, v, i, t.wt, d, t.pos, end)
               IN IF r.err # NoErr THEN Alt(R(r.err, r.v, r.pos, dev \cup r.dev), r.alt)
                  ELSE DecLoop(m, r.v, d, r.pos, end, dev \cup r.dev)

DecMsg(m, v, d, pos, end) == DecLoop(m, v, d, pos, end, {})

\* No oneof of got holds anything but what it has in want, also in sub-messages: after an error none of
\* them shows a half decoded member (whether the failing one falls back to none is not prescribed).
RECURSIVE OneofsSame(_, _, _)
OneofsSame(m, got, want) ==
  \A i \in 1..Len(Fields(m)) :
    LET f == Fields(m)[i]
    IN /\ f.oo # 0 => got[i] \in {<<>>, want[i]}
       /\ (f.oo = 0 /\ f.lab = "one" /\ IsMsg(f)) => OneofsSame(f.msg, got[i], want[i])

Decode(m, v, d) == DecMsg(m, v, d, 0, Len(d))
=============================================================================
