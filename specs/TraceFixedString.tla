-------------------------- MODULE TraceFixedString --------------------------
EXTENDS FixedString, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
TraceSlots == {"a", "b", "c", "d", "e"}
TraceCap == [a |-> 0, b |-> 1, c |-> 3, d |-> 3, e |-> 8]

TraceInit == Init /\ tid \in 1..Len(Traces) /\ l = 1
TraceNext == /\ l <= Len(Traces[tid])
             /\ Do(Traces[tid][l])
             /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
Agrees(s, i) == s.e = i.e /\ s.v = i.v
Conforms == l = 1 \/ Agrees(out, Traces[tid][l - 1].out)
=============================================================================
