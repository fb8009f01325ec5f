---- MODULE TraceLibraries ----
EXTENDS Libraries, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
TParts == RangeOf(Parts)
TLibs == {"xsmp_services", "noinit", "nofin"} \cup {"xsmp_" \o p : p \in TParts}
TBroken == {"nosuch", "unres", "garbage"}
TPkg == [x \in TLibs |-> IF x = "xsmp_services" THEN "services" ELSE IF x \in {"noinit", "nofin"} THEN x
          ELSE CHOOSE p \in TParts : x = "xsmp_" \o p]
TraceInit == Init /\ tid \in 1..Len(Traces) /\ l = 1
TraceNext == /\ l <= Len(Traces[tid])
             /\ Do(Traces[tid][l])
             /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
Agrees(s, i) == s.e = i.e /\ s.v = i.v
Conforms == l = 1 \/ Agrees(out, Traces[tid][l - 1].out)
====
