---- MODULE TraceLoggers ----
EXTENDS Loggers, Sequences, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, lost

TraceInit == Init /\ tid \in 1..Len(Traces) /\ l = 1 /\ lost = FALSE
\* what follows an operation the specification does not cover is not judged
TraceNext == /\ l <= Len(Traces[tid]) /\ l' = l + 1 /\ UNCHANGED tid
             /\ IF ~lost /\ Legal(Traces[tid][l]) = TRUE
                THEN Do(Traces[tid][l]) /\ UNCHANGED lost
                ELSE /\ lost' = TRUE /\ UNCHANGED <<on, apps, kinds, saved, tm, sinks>>
                     /\ out' = Traces[tid][l].out
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l, lost>>
Agrees(s, i) == s.e = i.e /\ s.v = i.v
Conforms == l = 1 \/ lost \/ Agrees(out, Traces[tid][l - 1].out)
====
