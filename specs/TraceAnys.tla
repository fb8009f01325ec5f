---- MODULE TraceAnys ----
EXTENDS Anys, Sequences, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l

TraceInit == Init /\ tid \in 1..Len(Traces) /\ l = 1
TraceNext == /\ l <= Len(Traces[tid])
             /\ Legal(Traces[tid][l]) = TRUE /\ Do(Traces[tid][l])
             /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
Agrees(s, i) == s.e = i.e /\ s.v = i.v
Conforms == l = 1 \/ Agrees(out, Traces[tid][l - 1].out)
====
