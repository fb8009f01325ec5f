---- MODULE TraceRequests ----
EXTENDS Requests, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, lost

TraceInit == Init /\ tid \in 1..Len(Traces) /\ l = 1 /\ lost = FALSE
\* what follows an operation the specification does not cover is not judged
TraceNext == /\ l <= Len(Traces[tid]) /\ l' = l + 1 /\ UNCHANGED tid
             /\ IF ~lost /\ Legal(Traces[tid][l]) = TRUE
                THEN Do(Traces[tid][l]) /\ UNCHANGED lost
                ELSE lost' = TRUE /\ UNCHANGED <<ops, props, reqs, out>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l, lost>>
Conforms == l = 1 \/ lost \/ \E x \in out : x.e = Traces[tid][l - 1].out.e /\ x.v = Traces[tid][l - 1].out.v
====
