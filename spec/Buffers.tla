------------------------------ MODULE Buffers -------------------------------
(***************************************************************************)
(* The write buffers, the size calculator, the read buffers and sections   *)
(* as state machines.  Step(s, o) is the set of allowed outcomes of        *)
(* operation o in state s, each [res, out, s]: the returned bool, the byte *)
(* delivered (-1 when the output variable is left alone), the next state.  *)
(*                                                                         *)
(* Lengths larger than any buffer are all the same to the specification;   *)
(* the harness maps them to Huge.                                          *)
(*                                                                         *)
(* States:                                                                 *)
(*  [k |-> "write", cap, data]             WriteBufferFixedSize            *)
(*  [k |-> "count", n]                     MessageSizeCalculator           *)
(*  [k |-> "read", cap, mem, w, r, total, secs]                            *)
(*      a read buffer holding the first w bytes of mem, r of them read.    *)
(*      total: get_size reports the bytes stored (ReadBufferFixedSize)     *)
(*      rather than the bytes left (a user's stream).                      *)
(*      secs: nested sections [size, max]; section l reads from layer l-1, *)
(*      layer 0 is the buffer itself.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Huge == 1000000000
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Out(res, out, s) == [res |-> res, out |-> out, s |-> s]

(******************************* write side ********************************)
WriteInit(cap) == [k |-> "write", cap |-> cap, data |-> <<>>]
CountInit == [k |-> "count", n |-> 0]

WriteStep(s, o) ==
  CASE o.op = "push"  -> IF Len(s.data) < s.cap THEN {Out(TRUE, -1, [s EXCEPT !.data = Append(@, o.b)])} ELSE {Out(FALSE, -1, s)}
    [] o.op = "pusha" -> IF o.n <= s.cap - Len(s.data)
                         THEN {Out(TRUE, -1, [s EXCEPT !.data = @ \o o.a])} ELSE {Out(FALSE, -1, s)}
    [] o.op = "clear" -> {Out(TRUE, -1, [s EXCEPT !.data = <<>>])}
CountStep(s, o) ==
  CASE o.op = "push"  -> {Out(TRUE, -1, [s EXCEPT !.n = @ + 1])}
    [] o.op = "pusha" -> {Out(TRUE, -1, [s EXCEPT !.n = @ + o.n])}
    [] o.op = "clear" -> {Out(TRUE, -1, [s EXCEPT !.n = 0])}

(******************************** read side ********************************)
ReadInit(cap, total, mem, w) == [k |-> "read", cap |-> cap, mem |-> mem, w |-> w, r |-> 0, total |-> total, secs |-> <<>>]
Left(s) == Max2(0, s.w - s.r)
SizeAt(s, l) == IF l > 0 THEN s.secs[l].size ELSE IF s.total THEN s.w ELSE Left(s)
MaxAt(s, l) == IF l > 0 THEN s.secs[l].max ELSE s.cap

RECURSIVE Available(_, _)
\* The number of bytes layer l can deliver.
Available(s, l) == IF l = 0 THEN Left(s) ELSE Min2(s.secs[l].size, Available(s, l - 1))
\* The next byte of layer l, -1 for none.
PeekAt(s, l) == IF Available(s, l) > 0 THEN s.mem[s.r + 1] ELSE -1

SetSize(s, l, n) == [s EXCEPT !.secs[l].size = n]

RECURSIVE AdvAt(_, _, _)
\* Skip n bytes at layer l.
AdvAt(s, l, n) ==
  IF l = 0 THEN {Out(n <= Left(s), -1, [s EXCEPT !.r = @ + Min2(n, Left(s))])}
  ELSE LET sz == s.secs[l].size
           k == Min2(n, sz)
       IN IF sz = 0 THEN IF n = 0 THEN {Out(TRUE, -1, s), Out(FALSE, -1, s)} ELSE {Out(FALSE, -1, s)}
          ELSE UNION {IF x.res THEN {Out(n <= sz, -1, SetSize(x.s, l, sz - k))}
                      \* The layer below ended early: nothing is left, how the section counts this is its own affair.
                      ELSE {Out(FALSE, -1, SetSize(x.s, l, y)) : y \in {sz - k, sz - (x.s.r - s.r)}}
                      : x \in AdvAt(s, l - 1, k)}

RECURSIVE PopAt(_, _)
PopAt(s, l) ==
  IF l = 0 THEN IF Left(s) > 0 THEN {Out(TRUE, s.mem[s.r + 1], [s EXCEPT !.r = @ + 1])} ELSE {Out(FALSE, -1, s)}
  ELSE LET sz == s.secs[l].size
       IN IF sz = 0 THEN {Out(FALSE, -1, s)}
          ELSE UNION {IF x.res THEN {Out(TRUE, x.out, SetSize(x.s, l, sz - 1))}
                      ELSE {Out(FALSE, -1, SetSize(x.s, l, sz))}
                      : x \in PopAt(s, l - 1)}

ReadStep(s, o) ==
  CASE o.op = "peek"  -> {Out(PeekAt(s, o.l) # -1, PeekAt(s, o.l), s)}
    [] o.op = "pop"   -> PopAt(s, o.l)
    [] o.op = "adv"   -> AdvAt(s, o.l, 1)
    [] o.op = "advn"  -> AdvAt(s, o.l, o.n)
    [] o.op = "open"  -> LET n == Min2(o.n, SizeAt(s, Len(s.secs)))
                         IN {Out(TRUE, -1, [s EXCEPT !.secs = Append(@, [size |-> n, max |-> n])])}
    [] o.op = "close" -> {Out(TRUE, -1, [s EXCEPT !.secs = Front(@)])}
    \* The writing side of ReadBufferFixedSize.
    [] o.op = "push"  -> IF s.w < s.cap THEN {Out(TRUE, -1, [s EXCEPT !.mem[s.w + 1] = o.b, !.w = @ + 1])} ELSE {Out(FALSE, -1, s)}
    [] o.op = "poke"  -> {Out(TRUE, -1, [s EXCEPT !.mem[o.n + 1] = o.b])}
    [] o.op = "setw"  -> {Out(TRUE, -1, [s EXCEPT !.w = Min2(o.n, s.cap)])}
    [] o.op = "clear" -> {Out(TRUE, -1, [s EXCEPT !.w = 0, !.r = 0])}

Step(s, o) == IF s.k = "write" THEN WriteStep(s, o) ELSE IF s.k = "count" THEN CountStep(s, o) ELSE ReadStep(s, o)

(***************************** observations ********************************)
(* What the public functions report in state s.                            *)
Sees(s, v) ==
  IF s.k = "write" THEN /\ v.size = Len(s.data) /\ v.max = s.cap /\ v.avail = s.cap - Len(s.data)
                        /\ v.data = s.data
  ELSE IF s.k = "count" THEN v.size = s.n
  ELSE /\ Len(v.lay) = Len(s.secs) + 1
       /\ \A l \in 0..Len(s.secs) : v.lay[l + 1] = <<SizeAt(s, l), MaxAt(s, l), PeekAt(s, l)>>
=============================================================================
