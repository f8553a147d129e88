----------------------------- MODULE MCBuffers ------------------------------
(***************************************************************************)
(* The buffer machines with small capacities, explored completely, with    *)
(* history variables stating what a user relies on independently of Step.  *)
(* Every transition is printed; the harness walks all of them in the code. *)
(***************************************************************************)
EXTENDS Buffers, TLC, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.VP_MC)      \* [k, cap, total, ns, depth]
VARIABLES st, acc, used, broken
vars == <<st, acc, used, broken>>
(* acc: accepted bytes since the last clear (write), bytes counted (count),*)
(*      bytes delivered or skipped since the last clear (read).            *)
(* used[l]: bytes that went through section l since it was opened.         *)
(* broken: the layers below a section ended before it, or were emptied.    *)

NSet == {Cfg.ns[i] : i \in 1..Len(Cfg.ns)}
Bytes(n, b) == [i \in 1..n |-> (b + i) % 3]
Ops(s) ==
  IF s.k # "read" THEN {[op |-> "push", b |-> b] : b \in 0..2} \cup {[op |-> "clear"]}
       \cup {[op |-> "pusha", n |-> n, a |-> IF n > 2 * Cfg.cap THEN <<>> ELSE Bytes(n, 1)] : n \in NSet}
  ELSE UNION {{[op |-> "peek", l |-> l], [op |-> "pop", l |-> l], [op |-> "adv", l |-> l]}
              \cup {[op |-> "advn", l |-> l, n |-> n] : n \in NSet} : l \in 0..Len(s.secs)}
       \cup (IF Len(s.secs) < Cfg.depth THEN {[op |-> "open", n |-> n] : n \in NSet} ELSE {})
       \cup (IF Len(s.secs) > 0 THEN {[op |-> "close"]} ELSE {})
       \cup (IF s.total THEN {[op |-> "push", b |-> (s.w + 1)], [op |-> "clear"]} \cup {[op |-> "setw", n |-> n] : n \in NSet} ELSE {})

Init == /\ st = (IF Cfg.k = "write" THEN WriteInit(Cfg.cap)
                 ELSE IF Cfg.k = "count" THEN CountInit
                 ELSE ReadInit(Cfg.cap, Cfg.total, [i \in 1..Cfg.cap |-> IF Cfg.total THEN 0 ELSE i], IF Cfg.total THEN 0 ELSE Cfg.cap))
        /\ acc = (IF Cfg.k = "write" THEN <<>> ELSE 0) /\ used = <<>> /\ broken = FALSE

Moved(x) == x.s.r - st.r
Next == \E o \in Ops(st) : \E x \in Step(st, o) :
          /\ st' = x.s
          /\ IF st.k = "write" THEN
               /\ acc' = (IF o.op = "clear" THEN <<>> ELSE IF ~x.res THEN acc ELSE IF o.op = "push" THEN Append(acc, o.b) ELSE acc \o o.a)
               /\ UNCHANGED <<used, broken>>
             ELSE IF st.k = "count" THEN
               /\ acc' = (IF o.op = "clear" THEN 0 ELSE IF o.op = "push" THEN acc + 1 ELSE acc + o.n)
               /\ UNCHANGED <<used, broken>>
             ELSE
               /\ acc' = (IF o.op = "clear" THEN 0 ELSE acc + Moved(x))
               /\ used' = (IF o.op = "open" THEN Append(used, 0) ELSE IF o.op = "close" THEN Front(used)
                           ELSE IF o.op \in {"pop", "adv", "advn"} THEN [l \in 1..Len(used) |-> IF l <= o.l THEN used[l] + Moved(x) ELSE used[l]]
                           ELSE used)
               /\ broken' = IF x.s.secs = <<>> THEN FALSE
                            ELSE (broken \/ \E l \in 1..Len(x.s.secs) : x.s.secs[l].size > Available(x.s, l - 1))
          /\ IF Cfg.print THEN PrintT(<<"EDGE", ToJson(st), ToJson(o), ToJson(x.s)>>) ELSE TRUE
Bound == st.k = "count" => st.n <= 8
Spec == Init /\ [][Next]_vars

(* Write buffers hold exactly what was accepted. *)
Stored == /\ st.k = "write" => st.data = acc /\ Len(acc) <= st.cap
          /\ st.k = "count" => st.n = acc
(* A read buffer moves forward only, by what was delivered; a section never *)
(* passes more than its length and knows what remains of it.                *)
InStep == st.k = "read" =>
          /\ acc = st.r /\ st.r <= st.cap
          /\ \A l \in 1..Len(st.secs) : /\ used[l] <= st.secs[l].max
                                        /\ st.secs[l].size <= st.secs[l].max
                                        /\ ~broken => st.secs[l].size = st.secs[l].max - used[l]
(* Each accepted push has effect, each refused one has none; a failed read  *)
(* never moves backwards.                                                   *)
Monotone == [][(st.k = "read" /\ st'.r < st.r) => (st'.r = 0 /\ st'.w = 0)]_vars
=============================================================================
