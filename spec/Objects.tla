------------------------------ MODULE Objects -------------------------------
(***************************************************************************)
(* The object level: a few message objects ("slots") and the operations of *)
(* the public API of generated messages on them.  Apply gives the unique   *)
(* successor and the results an operation must have.  An operation is a    *)
(* record: o name, s slot, src source slot or 0, p path to a nested        *)
(* message, f field index, w variant of the call, i index, v values.       *)
(***************************************************************************)
EXTENDS Codec

Min2(a, b) == IF a < b THEN a ELSE b

\* A sequence at least n long, filled up with x.
Grow(s, n, x) == IF Len(s) >= n THEN s ELSE TLCEval([j \in 1..n |-> IF j <= Len(s) THEN s[j] ELSE x])

\* Write element idx (0 based, limited to the last of max places), growing with defaults.
PutAt(s, idx, max, x, dflt) ==
  LET k == Min2(idx, max - 1) + 1 IN [Grow(s, k, dflt) EXCEPT ![k] = x]

Out(v, r) == [v |-> v, r |-> r]

\* Put x in field i, which becomes present respectively the active member.
Store(m, v, i, x) ==
  LET f == Fields(m)[i] IN
  IF Tracked(f) THEN [Activate(m, v, i) EXCEPT ![i] = <<x>>] ELSE [v EXCEPT ![i] = x]
\* The bare value of a singular field after a mutable access.
Bare(m, v, i) == IF Tracked(Fields(m)[i]) THEN Activate(m, v, i)[i][1] ELSE v[i]

\* An operation on a field of message m with value v.  x is the list of argument values.
Leaf(m, v, op, x) ==
  LET i == op.f
      f == Fields(m)[i]
      ok(w) == Out(w, <<NoErr>>)
  IN CASE op.o = "clr" -> ok([v EXCEPT ![i] = IF f.lab = "rep" \/ Tracked(f) THEN <<>> ELSE BareDefault(f)])
       [] op.o = "mut" -> ok(IF f.lab = "rep" THEN v ELSE Activate(m, v, i))
       [] op.o \in {"set", "mset"} -> ok(Store(m, v, i, x[1]))
       \* a field given to itself; that of an inactive member is not read
       [] op.o = "self" -> ok(IF f.lab = "rep" \/ (f.oo # 0 /\ v[i] = <<>>) THEN v ELSE Store(m, v, i, Bare(m, v, i)))
       [] op.o = "mclr" -> ok(Store(m, v, i, BareDefault(f)))
       \* strings and bytes
       [] op.o = "sset" -> IF Len(x[1]) > f.max THEN Out(Store(m, v, i, Bare(m, v, i)), <<ArrayFull>>)
                           ELSE ok(Store(m, v, i, x[1]))
       [] op.o = "sasg" -> IF Len(x[1]) > f.max THEN ok(Store(m, v, i, Bare(m, v, i)))
                           ELSE ok(Store(m, v, i, x[1]))
       [] op.o = "scstr" -> ok(Store(m, v, i, SubSeq(x[1], 1, Min2(Len(x[1]), f.max))))
       [] op.o \in {"snull", "sclr"} -> ok(Store(m, v, i, <<>>))
       [] op.o = "sidx" -> ok(Store(m, v, i, PutAt(Bare(m, v, i), op.i, f.max, x[1][1], 0)))
       \* repeated fields
       [] op.o = "add" -> IF Len(v[i]) < f.rmax THEN ok([v EXCEPT ![i] = Append(@, x[1])])
                          ELSE Out(v, <<IF op.w = 1 THEN ArrayFull ELSE NoErr>>)
       [] op.o = "radd" -> IF Len(v[i]) < f.rmax THEN ok([v EXCEPT ![i] = Append(@, x[1])])
                           ELSE Out(v, <<ArrayFull>>)
       [] op.o \in {"seti", "muti", "rset", "rget"} ->
            ok([v EXCEPT ![i] = PutAt(@, op.i, f.rmax, x[1], BareDefault(f))])
       [] op.o = "sdata" -> IF op.i > f.rmax THEN Out(v, <<ArrayFull>>)
                            ELSE ok([v EXCEPT ![i] = TLCEval([j \in 1..op.i |-> IF Len(x) = 1 THEN x[1] ELSE x[j]])])
       \* a copy of a repeated field of a smaller capacity
       [] op.o = "xcpy" -> ok([v EXCEPT ![i] = TLCEval([j \in 1..op.i |-> IF Len(x) = 1 THEN x[1] ELSE x[j]])])
       [] op.o = "rclr" -> ok([v EXCEPT ![i] = <<>>])
       [] op.o = "asgf" -> ok([v EXCEPT ![i] = x[1][i]])
       [] op.o = "getc" -> IF op.i < Len(v[i]) THEN Out(v, <<NoErr, v[i][op.i + 1]>>)
                           ELSE Out(v, <<IndexOutOfBound>>)

\* Follow the path with mutable accesses, then operate.
RECURSIVE Along(_, _, _, _, _)
Along(m, v, p, op, x) ==
  IF p = <<>> THEN Leaf(m, v, op, x)
  ELSE LET i == p[1][1]
           f == Fields(m)[i]
       IN IF f.lab = "rep" THEN
            LET k == Min2(p[1][2], f.rmax - 1) + 1
                g == Grow(v[i], k, BareDefault(f))
                r == Along(f.msg, g[k], Tail(p), op, x)
            IN Out([v EXCEPT ![i] = [g EXCEPT ![k] = r.v]], r.r)
          ELSE LET r == Along(f.msg, Bare(m, v, i), Tail(p), op, x)
               IN Out(Store(m, v, i, r.v), r.r)

FieldOps == {"clr", "self", "mut", "set", "mset", "mclr", "sset", "sasg", "scstr", "snull", "sclr", "sidx", "add", "radd",
             "seti", "muti", "rset", "rget", "sdata", "xcpy", "rclr", "asgf", "getc"}

\* The argument values: from the source slot or from the operation itself.
Args(slots, op) == IF op.src # 0 THEN <<slots[op.src].v>> ELSE op.v

\* All operations except serialize and deserialize.
Apply(slots, op) ==
  LET s == op.s
      m == slots[s].m
      put(v) == [slots EXCEPT ![s].v = v]
  IN CASE op.o \in {"new", "clear"} -> [slots |-> put(Default(m)), r |-> <<NoErr>>]
       [] op.o \in {"cpy", "mov", "asg", "masg"} -> [slots |-> put(slots[op.src].v), r |-> <<NoErr>>]
       [] op.o \in FieldOps ->
            LET q == Along(m, slots[s].v, op.p, op, Args(slots, op))
            IN [slots |-> put(q.v), r |-> q.r]
=============================================================================
