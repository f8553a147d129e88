---------------------------- MODULE TraceBuffers ----------------------------
(* Decides whether recorded executions of the buffers are behaviours of Buffers. *)
EXTENDS Buffers, TLC, Json, IOUtils

TraceVal == ndJsonDeserialize(IOEnv.VP_TRACES)
CONSTANT Traces
TracesDef == TraceVal

VARIABLES t, i, st, bad
vars == <<t, i, st, bad>>

Begin(x) == IF x.k = "write" THEN WriteInit(x.cap) ELSE IF x.k = "count" THEN CountInit ELSE ReadInit(x.cap, x.total, x.mem, x.w)
Init == t \in 1..Len(Traces) /\ i = 1 /\ st = Begin(Traces[t]) /\ bad = FALSE

Next == /\ ~bad /\ i <= Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[i]
               ok == {x \in Step(st, e.o) : x.res = e.res /\ x.out = e.out /\ Sees(x.s, e.v)}
           IN IF ok = {} THEN /\ PrintT(<<"REJECT", Traces[t].id, i, ToJson(st), ToJson({[res |-> x.res, out |-> x.out] : x \in Step(st, e.o)})>>)
                              /\ bad' = TRUE /\ UNCHANGED <<t, i, st>>
              ELSE /\ \E x \in ok : st' = x.s
                   /\ i' = i + 1 /\ UNCHANGED <<t, bad>>
                   /\ i = Len(Traces[t].ev) => PrintT(<<"DONE", Traces[t].id>>)
Spec == Init /\ [][Next]_vars
=============================================================================
