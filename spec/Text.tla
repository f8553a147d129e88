-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The text form of a message, as sequences of character codes without     *)
(* white space: indentation is a matter of taste, names, values, order and *)
(* punctuation are not.                                                    *)
(***************************************************************************)
EXTENDS Codec

C(ch) == CASE ch = "quote" -> 34 [] ch = "comma" -> 44 [] ch = "colon" -> 58 [] ch = "[" -> 91 [] ch = "]" -> 93
           [] ch = "{" -> 123 [] ch = "}" -> 125 [] ch = "-" -> 45 [] ch = "." -> 46
White == {32, 10}
Strip(s) == SelectSeq(s, LAMBDA x : x \notin White)

(******** large natural numbers: base 10000 digits, least first ************)
RECURSIVE Carry(_, _, _)
\* s holds digits that may be too large (but fit in 32 bits).
Carry(s, i, c) == IF i > Len(s) THEN IF c = 0 THEN <<>> ELSE <<c % 10000>> \o Carry(s, i, c \div 10000)
                  ELSE LET x == s[i] + c IN <<x % 10000>> \o Carry(s, i + 1, x \div 10000)
MulAdd(s, k, a) == TLCEval(Carry([i \in 1..Len(s) |-> s[i] * k], 1, a))
RECURSIVE MulPow2(_, _)
MulPow2(s, e) == IF e = 0 THEN s ELSE IF e >= 10 THEN MulPow2(MulAdd(s, 1024, 0), e - 10) ELSE MulPow2(MulAdd(s, 2, 0), e - 1)
\* The number made of the little endian bytes b.
FromBytes(b) == FoldRight(LAMBDA x, s : MulAdd(s, 256, x), b, <<0>>)
Odd(s) == s[1] % 2 = 1
\* Half of s, rounded down.
Halve(s) == TLCEval([i \in 1..Len(s) |-> (s[i] \div 2) + (IF i < Len(s) /\ s[i + 1] % 2 = 1 THEN 5000 ELSE 0)])
\* s / 2^e rounded to nearest, ties to even. sticky: something was lost below the lowest bit considered.
RECURSIVE DivPow2(_, _, _)
DivPow2(s, e, sticky) ==
  IF e = 0 THEN s
  ELSE IF e = 1 THEN LET h == Halve(s) IN IF Odd(s) /\ (sticky \/ Odd(h)) THEN MulAdd(h, 1, 1) ELSE h
  ELSE DivPow2(Halve(s), e - 1, sticky \/ Odd(s))

Digits4(x) == <<48 + (x \div 1000), 48 + ((x \div 100) % 10), 48 + ((x \div 10) % 10), 48 + (x % 10)>>
AllDigits(s) == FlattenSeq(TLCEval([i \in 1..Len(s) |-> Digits4(s[Len(s) + 1 - i])]))
RECURSIVE NoZeros(_)
\* Without leading zeros, but at least n digits.
NoZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN NoZeros(Tail(d)) ELSE d
Decimal(s) == NoZeros(AllDigits(s))

Negative(b) == b[Len(b)] >= 128
Inc(b) == LET RECURSIVE inc(_, _)
              inc(x, i) == IF i > Len(x) THEN x ELSE IF x[i] = 255 THEN inc([x EXCEPT ![i] = 0], i + 1) ELSE [x EXCEPT ![i] = @ + 1]
          IN inc(b, 1)
Unsigned(b) == Decimal(FromBytes(b))
Signed(b) == IF Negative(b) THEN <<C("-")>> \o Unsigned(Inc(Flip(b))) ELSE Unsigned(b)

(* %f: six decimals of the exact value, rounded to nearest even. *)
Pad(d, n) == IF Len(d) >= n THEN d ELSE TLCEval([i \in 1..(n - Len(d)) |-> 48]) \o d
Fraction6(n) == LET d == Pad(Decimal(n), 7) IN SubSeq(d, 1, Len(d) - 6) \o <<C(".")>> \o SubSeq(d, Len(d) - 5, Len(d))
Exponent(b) == IF Len(b) = 4 THEN (b[4] % 128) * 2 + (b[3] \div 128) ELSE (b[8] % 128) * 16 + (b[7] \div 16)
MantBytes(b) == IF Len(b) = 4 THEN <<b[1], b[2], b[3] % 128>> ELSE <<b[1], b[2], b[3], b[4], b[5], b[6], b[7] % 16>>
Million(s) == MulAdd(MulAdd(s, 1000, 0), 1000, 0)
FloatText(b) ==
  LET x == Exponent(b)
      top == IF Len(b) = 4 THEN 255 ELSE 2047
      frac == MantBytes(b)
      \* the implicit bit
      one == IF Len(b) = 4 THEN [frac EXCEPT ![3] = @ + 128] ELSE [frac EXCEPT ![7] = @ + 16]
      e == (IF x = 0 THEN 1 ELSE x) - (IF Len(b) = 4 THEN 150 ELSE 1075)
      m == FromBytes(IF x = 0 THEN frac ELSE one)
      sign == IF Negative(b) THEN <<C("-")>> ELSE <<>>
  IN sign \o (IF x = top THEN IF IsZero(frac) THEN <<105, 110, 102>> ELSE <<110, 97, 110>>
              ELSE IF e >= 0 THEN Decimal(MulPow2(m, e)) \o <<C("."), 48, 48, 48, 48, 48, 48>>
              ELSE IF e < -120 THEN Fraction6(<<0>>)
              ELSE Fraction6(DivPow2(Million(m), -e, FALSE)))

(********************************** text ***********************************)
Join(parts) == FlattenSeq(TLCEval([i \in 1..Len(parts) |-> IF i = 1 THEN parts[i] ELSE <<C("comma")>> \o parts[i]]))
Quoted(s) == <<C("quote")>> \o s \o <<C("quote")>>
ListOf(parts) == <<C("[")>> \o Join(parts) \o <<C("]")>>

\* The text is null terminated itself, it shows a string up to its first null character.
UpToNull(v) == LET z == {i \in 1..Len(v) : v[i] = 0} IN IF z = {} THEN v ELSE SubSeq(v, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)

RECURSIVE MsgText(_, _)
BareText(f, v) ==
  CASE IsMsg(f) -> MsgText(f.msg, v)
    [] f.k = "string" -> Quoted(Strip(UpToNull(v)))
    [] f.k = "bytes" -> ListOf(TLCEval([i \in 1..Len(v) |-> Unsigned(<<v[i]>>)]))
    [] f.k = "bool" -> IF v = <<0>> THEN <<102, 97, 108, 115, 101>> ELSE <<116, 114, 117, 101>>
    [] f.k \in {"float", "double"} -> FloatText(v)
    [] f.k \in {"int32", "int64", "sint32", "sint64", "sfixed32", "sfixed64", "enum"} -> Signed(v)
    [] OTHER -> Unsigned(v)
ValueText(f, v) == IF f.lab = "rep" THEN ListOf(TLCEval([i \in 1..Len(v) |-> BareText(f, v[i])]))
                   ELSE IF f.oo # 0 THEN BareText(f, v[1])
                   \* An absent optional field shows its default.
                   ELSE IF Tracked(f) THEN BareText(f, IF v = <<>> THEN BareDefault(f) ELSE v[1])
                   ELSE BareText(f, v)
MsgText(m, v) ==
  LET o == SelectSeq(Schema[m].ord, LAMBDA i : Fields(m)[i].oo = 0 \/ v[i] # <<>>)
  IN <<C("{")>> \o Join(TLCEval([j \in 1..Len(o) |-> Quoted(Fields(m)[o[j]].name) \o <<C("colon")>> \o ValueText(Fields(m)[o[j]], v[o[j]])])) \o <<C("}")>>
=============================================================================
