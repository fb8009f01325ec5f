---- MODULE TraceSignals ----
EXTENDS Signals, Sequences, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, ok

TraceInit == Init /\ tid \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
TraceNext == /\ l <= Len(Traces[tid]) /\ ok
             /\ LET o == Traces[tid][l]
                    r == IF Whole(o) THEN Observed(sg, o, o.out.log) ELSE Basic(sg, o) IN
                /\ sg' = r.s
                /\ out' = IF Whole(o) THEN [e |-> "ok", see |-> <<>>] ELSE [e |-> r.e, see |-> Seen(r.s, o)]
                /\ ok' = IF Whole(o) THEN r.ok ELSE TRUE
             /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l, ok>>
Agrees(s, o) == s.e = o.out.e /\ (o.op = "see" => s.see = o.out.see)
Conforms == l = 1 \/ (ok /\ Agrees(out, Traces[tid][l - 1]))
====
