-------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* What the code generator makes of a set of proto files.                  *)
(*                                                                         *)
(* A program p is a record                                                 *)
(*   files: sequence of [syntax, deps: imported files]                     *)
(*   msgs:  sequence of [parent: enclosing message or 0, file, fields]     *)
(*   enums: sequence of [parent, file]                                     *)
(* a field is [lab "one"|"opt"|"rep", k, ref: message or enum or 0,        *)
(*   oo: oneof or 0, max: the maxLength option or 0].                      *)
(*                                                                         *)
(* The generated class of a message is nested in the class of its parent   *)
(* and holds its fields by value: the class of a field must be complete    *)
(* before the class using it, and class definitions cannot be split.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Msgs(p) == 1..Len(p.msgs)
RECURSIVE AncestorsOf(_, _)
\* i and the messages around it.
AncestorsOf(p, i) == IF i = 0 THEN {} ELSE {i} \cup AncestorsOf(p, p.msgs[i].parent)
Subtree(p, a) == {i \in Msgs(p) : a \in AncestorsOf(p, i)}
FieldsOf(p, i) == p.msgs[i].fields
UsesMsgs(p, i) == {FieldsOf(p, i)[f].ref : f \in {g \in 1..Len(FieldsOf(p, i)) : FieldsOf(p, i)[g].k = "msg"}}
\* The messages in which the enums of the fields are defined.
UsesEnumsOf(p, i) == {p.enums[FieldsOf(p, i)[f].ref].parent : f \in {g \in 1..Len(FieldsOf(p, i)) : FieldsOf(p, i)[g].k = "enum"}} \ {0}
\* The classes that must be complete, other than the ones being defined around.
Needs(p, i) == UsesMsgs(p, i) \cup (UsesEnumsOf(p, i) \ AncestorsOf(p, i))

(***************************** cyclic classes ******************************)
ContainsEnclosing(p) == \E i \in Msgs(p) : UsesMsgs(p, i) \cap AncestorsOf(p, p.msgs[i].parent) # {}
\* a and b in the same scope: a cannot be defined before b.
After(p, a, b) == \E i \in Subtree(p, a) : Needs(p, i) \cap Subtree(p, b) # {}
RECURSIVE Grow(_, _, _)
Reach(p, s, set) == Grow(p, s, set)
Grow(p, s, set) == LET more == set \cup {b \in s : \E a \in set : a # b /\ After(p, a, b)}
                   IN IF more = set THEN set ELSE Grow(p, s, more)
Siblings(p, a) == {b \in Msgs(p) : p.msgs[b].parent = p.msgs[a].parent /\ p.msgs[b].file = p.msgs[a].file}
OnCycle(p, a) == LET s == Siblings(p, a)
                     next == {b \in s \ {a} : After(p, a, b)}
                 IN a \in Reach(p, s, next)
Cyclic(p) == ContainsEnclosing(p) \/ \E a \in Msgs(p) : OnCycle(p, a)

(**************************** template parameters **************************)
IsText(f) == f.k \in {"string", "bytes"}
RECURSIVE Params(_, _)
ElemParams(p, f) == IF IsText(f) THEN IF f.max = 0 THEN <<"len">> ELSE <<>>
                    ELSE IF f.k = "msg" THEN Params(p, f.ref) ELSE <<>>
FieldParams(p, f) == (IF f.lab = "rep" /\ f.max = 0 THEN <<"rep">> ELSE <<>>) \o ElemParams(p, f)
\* Plain fields in declaration order, then the oneofs in order with their members.
NOneofs(p, m) == LET s == {FieldsOf(p, m)[i].oo : i \in 1..Len(FieldsOf(p, m))} IN IF s = {} THEN 0 ELSE CHOOSE x \in s : \A y \in s : y <= x
Order(p, m) == FlattenSeq([o \in 1..(NOneofs(p, m) + 1) |->
                 SelectSeq([i \in 1..Len(FieldsOf(p, m)) |-> i], LAMBDA i : FieldsOf(p, m)[i].oo = o - 1)])
Params(p, m) == FlattenSeq(TLCEval([j \in 1..Len(Order(p, m)) |-> FieldParams(p, FieldsOf(p, m)[Order(p, m)[j]])]))

\* A type inside a class template cannot be named outside of it.
InTemplate(p) == \E i \in Msgs(p) : \E f \in 1..Len(FieldsOf(p, i)) :
                   LET x == FieldsOf(p, i)[f]
                       owner == IF x.k = "msg" THEN p.msgs[x.ref].parent ELSE IF x.k = "enum" THEN p.enums[x.ref].parent ELSE 0
                   IN owner # 0 /\ \E q \in AncestorsOf(p, owner) \ AncestorsOf(p, i) : Params(p, q) # <<>>

Proto3(p) == \A f \in 1..Len(p.files) : p.files[f].syntax = "proto3"
Accepted(p) == Proto3(p) /\ ~Cyclic(p) /\ ~InTemplate(p)
Reason(p) == IF ~Proto3(p) THEN "proto2" ELSE IF Cyclic(p) THEN "cyclic" ELSE IF InTemplate(p) THEN "template" ELSE "ok"

(************************* capacities in the classes ***********************)
\* The arguments first..first+n-1 stand for the parameters of m; per field the capacities it must have:
\* [rep, len, args]: maximum number of elements, maximum length, arguments of its message type (0 or empty: none).
NFP(p, f) == Len(FieldParams(p, f))
Offset(p, m, j) == LET o == Order(p, m) IN FoldLeft(LAMBDA a, k : a + NFP(p, FieldsOf(p, m)[o[k]]), 0, [k \in 1..(j - 1) |-> k])
Caps(p, m, first) ==
  LET o == Order(p, m)
      caps(j) == LET f == FieldsOf(p, m)[o[j]]
                     at == first + Offset(p, m, j)
                     own == IF f.lab = "rep" /\ f.max = 0 THEN 1 ELSE 0
                 IN [rep |-> IF f.lab # "rep" THEN 0 ELSE IF f.max = 0 THEN at ELSE f.max,
                     len |-> IF ~IsText(f) THEN 0 ELSE IF f.max = 0 THEN at + own ELSE f.max,
                     args |-> IF f.k # "msg" THEN <<>> ELSE [a \in 1..Len(Params(p, f.ref)) |-> at + own + a - 1]]
      pos(i) == CHOOSE j \in 1..Len(o) : o[j] = i
  IN TLCEval([i \in 1..Len(o) |-> caps(pos(i))])

(******************************* identifiers *******************************)
Invalid == "Invalid FieldNumber"
\* The name belonging to a field number.
NameOf(p, m, n) == LET s == {i \in 1..Len(FieldsOf(p, m)) : FieldsOf(p, m)[i].num = n}
                   IN IF s = {} THEN Invalid ELSE FieldsOf(p, m)[CHOOSE i \in s : TRUE].name
\* What can be seen of the classes of m, parameters 11, 12, ...: o has per field
\* [rep, len: capacities, 0 when there is none, num, name, which: the case when it is the set member of its oneof, 0 for others],
\* look: <<number, text>> for probed numbers, unset: the case when nothing is set.
CapsOk(p, m, o) == \A i \in 1..Len(FieldsOf(p, m)) : LET c == Caps(p, m, 11)[i] IN o.fields[i].rep = c.rep /\ o.fields[i].len = c.len
IdsOk(p, m, o) == /\ \A i \in 1..Len(FieldsOf(p, m)) : LET f == FieldsOf(p, m)[i] IN
                       /\ o.fields[i].num = f.num /\ o.fields[i].name = f.name
                       /\ o.fields[i].which = (IF f.oo = 0 THEN 0 ELSE f.num)
                  /\ \A k \in 1..Len(o.look) : o.look[k][2] = NameOf(p, m, o.look[k][1])
                  /\ o.unset = 0
EnumOk(p, e, o) == o = [v \in 1..Len(p.enums[e].values) |-> p.enums[e].values[v][2]]

(******************************** output files *****************************)
RECURSIVE Closure(_, _)
Closure(p, s) == LET more == s \cup UNION {{p.files[f].deps[d] : d \in 1..Len(p.files[f].deps)} : f \in s} IN IF more = s THEN s ELSE Closure(p, more)

Expect(p) == [ok |-> Accepted(p), reason |-> Reason(p),
              np |-> IF Accepted(p) THEN [m \in Msgs(p) |-> Len(Params(p, m))] ELSE <<>>,
              caps |-> IF Accepted(p) THEN [m \in Msgs(p) |-> Caps(p, m, 11)] ELSE <<>>,
              out |-> [f \in 1..Len(p.files) |-> Closure(p, {f})]]
=============================================================================
