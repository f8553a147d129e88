---------------------------- MODULE TraceObjects ----------------------------
(***************************************************************************)
(* Validation of recorded executions of the real code against Objects and  *)
(* Codec.  Traces is a sequence of [id, m |-> message types of the slots,  *)
(* ev |-> events]; an event is the operation with what was observed: r the *)
(* results, st the values of all slots, a the agreement of all accessors,  *)
(* al the number of memory allocations.  Every trace starts its own        *)
(* behaviour; each step consumes one event.                                *)
(*                                                                         *)
(* Every event violates a (normally empty) set of clauses.  A property is  *)
(* judged by a set of clauses (VP_JUDGE): an event violating one of those  *)
(* ends the behaviour with a REJECT line.  After an event that violates    *)
(* only other clauses the behaviour goes on from the observed values.      *)
(***************************************************************************)
EXTENDS Objects, Text, Json, IOUtils, TLCExt

SchemaFile == IOEnv.VP_SCHEMA
TraceFile == IOEnv.VP_TRACES
JudgeFile == IOEnv.VP_JUDGE

Traces == ndJsonDeserialize(TraceFile)
SchemaVal == JsonDeserialize(SchemaFile)
SchemaDef == SchemaVal
Judge == ToSet(JsonDeserialize(JudgeFile))

VARIABLES tid, l, slots, verdict
vars == <<tid, l, slots, verdict>>

Ev == Traces[tid].ev[l]
Obs(i) == Ev.st[i]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ slots = [i \in 1..Len(Traces[tid].m) |-> [m |-> Traces[tid].m[i], v |-> Default(Traces[tid].m[i])]]
        /\ verdict = "run"

Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Clause(name, holds) == IF holds THEN {} ELSE {name}

ObsOk == \A i \in 1..Len(slots) : WellFormed(slots[i].m, Obs(i))
Same(new) == \A i \in 1..Len(new) : Obs(i) = new[i].v
OthersSame(s) == \A i \in 1..Len(slots) : i # s => Obs(i) = slots[i].v
Observed == [i \in 1..Len(slots) |-> [slots[i] EXCEPT !.v = Obs(i)]]

Common == Clause("agree", Ev.a = 1) \cup Clause("alloc", Ev.al = 0) \cup Clause("wellformed", ObsOk)

\* Consume the event: bad is the set of violated clauses, new the slots when there are none.
Step(bad, new, why) ==
  LET all == bad \cup Common
      hit == all \cap Judge
      stop == hit # {} \/ (all # {} /\ ~ObsOk)
      fin == ~stop /\ l = Len(Traces[tid].ev)
  IN /\ tid' = tid
     /\ IF hit = {} THEN TRUE ELSE PrintT(<<"REJECT", Traces[tid].id, l, hit, why>>)
     /\ IF hit = {} /\ all # {} THEN PrintT(<<"OTHER", Traces[tid].id, l, all>>) ELSE TRUE
     /\ verdict' = IF stop THEN "bad" ELSE IF fin THEN "done" ELSE "run"
     /\ l' = IF ~stop /\ ~fin THEN l + 1 ELSE l
     /\ slots' = IF stop THEN slots ELSE IF all = {} THEN new ELSE Observed
     /\ IF fin \/ (stop /\ hit = {}) THEN PrintT(<<"DONE", Traces[tid].id, l>>) ELSE TRUE

\* serialize: cap is the free space. r = <<error, bytes, serialized size, unchanged and repeatable, refused>>
DoSer ==
  /\ Ev.o = "ser"
  /\ LET e == Ev
         enc == Encode(slots[e.s].m, slots[e.s].v)
         n == Len(enc)
         fits == n <= e.cap
     IN Step(Clause("ser.size", e.r[3] = n)
             \cup Clause("ser.pure", e.r[4] = 1 /\ Same(slots))
             \cup (IF e.flt THEN \* a refusing buffer
                     Clause("ser.refused", /\ e.r[1] \in {NoErr, BufferFull}
                                           /\ (e.r[5] = 1) <=> (e.r[1] # NoErr)
                                           /\ e.r[5] = 0 => e.r[2] = enc)
                   ELSE Clause("ser.cap", e.r[1] = IF fits THEN NoErr ELSE BufferFull)
                        \cup Clause("ser.bytes", fits => e.r[2] = enc)
                        \cup Clause("ser.prefix", ~fits => Prefix(e.r[2], enc))),
             slots, <<"ser", "size", n, "bytes", enc>>)

\* deserialize: r = <<error, bytes left>>; d the bytes; eq # 0: the slot of which these are the bytes,
\* decoded into a fresh message.
DoDes ==
  /\ Ev.o = "des"
  /\ LET e == Ev
         s == e.s
         d == Decode(slots[s].m, slots[s].v, e.d)
         failed == e.r[1] # NoErr
         new == [slots EXCEPT ![s].v = d.v]
         \* After an error the message is anything well formed.
         adopted == [slots EXCEPT ![s].v = Obs(s)]
         known == e.r[1] \in 0..7
         others == Clause("des.others", OthersSame(s)) \cup Clause("des.known", known)
         rt == IF e.eq = 0 THEN {} ELSE IF Size(slots[e.eq].m, slots[e.eq].v) > e.lim THEN {} ELSE Clause("roundtrip", ~failed /\ e.r[2] = 0 /\ Obs(s) = slots[e.eq].v)
     IN IF d.dev # {} THEN
          \* A recorded finding: an error is right, the recorded outcome is tolerated.
          /\ IF ~failed THEN PrintT(<<"FINDING", d.dev, e.d>>) ELSE TRUE
          /\ Step(others \cup rt \cup Clause("des.reject", failed \/ (d.err = NoErr /\ e.r[2] = 0 /\ Same(new))), adopted, <<"des", d>>)
        ELSE IF d.err # NoErr THEN
          Step(others \cup rt \cup Clause("des.reject", failed) \cup Clause("des.oneof", OneofsSame(slots[s].m, Obs(s), d.v)) \cup Clause("des.code", e.r[1] = d.err \/ (failed /\ e.r[1] \in d.alt)), adopted, <<"des", d>>)
        ELSE
          Step(others \cup rt \cup Clause("des.accept", ~failed) \cup Clause("des.value", ~failed => (e.r[2] = 0 /\ Same(new))), new, <<"des", d>>)

\* to_string: r = <<text in a large view, what the returned view has left of it (negative: not its tail),
\* results for the small views>>; for each view <<size, text or <<-1>> when not terminated, rest>>.
DoTxt ==
  /\ Ev.o = "txt"
  /\ LET e == Ev
         text == e.r[1]
         want == MsgText(slots[e.s].m, slots[e.s].v)
         ViewOk(w) == LET n == w[1]
                          fits == Len(text) < n
                      IN IF n = 0 THEN w[3] = 0
                         ELSE /\ w[2] = SubSeq(text, 1, IF fits THEN Len(text) ELSE n - 1)
                              /\ IF fits THEN w[3] = n - Len(text) ELSE w[3] \in {0, 1}
     IN Step(Clause("txt.text", Strip(text) = want) \cup Clause("txt.rest", e.r[2] = e.r[4] - Len(text)) \cup Clause("ser.pure", Same(slots))
             \cup Clause("txt.view", \A i \in 1..Len(e.r[3]) : ViewOk(e.r[3][i])), slots, <<"txt", want>>)

DoOther ==
  /\ Ev.o \notin {"ser", "des", "txt"}
  /\ LET q == Apply(slots, Ev)
     IN Step(Clause("op.result", Ev.r = q.r) \cup Clause("op.value", Same(q.slots)), q.slots, <<Ev.o, q.r, q.slots[Ev.s].v>>)

Next == verdict = "run" /\ (DoSer \/ DoDes \/ DoTxt \/ DoOther)
Spec == Init /\ [][Next]_vars

\* What the specification itself promises along the way.
SlotsWellFormed == \A i \in 1..Len(slots) : WellFormed(slots[i].m, slots[i].v)
=============================================================================
