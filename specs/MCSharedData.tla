--------------------------- MODULE MCSharedData ---------------------------
EXTENDS SharedData, Sequences, TLC, Json
CONSTANTS Values, SimDepth
VARIABLE hist
Ops == [op : {"read", "write", "relock", "try_read", "try_write", "unlock",
              "drop", "get"}, t : Threads] \cup
       [op : {"put"}, t : Threads, x : Values]
MCInit == Init /\ hist = <<>>
MCNext == \E o \in Ops : Do(o) /\
   hist' = IF SimDepth > 0
           THEN Append(hist, [op |-> o.op, t |-> o.t,
                              x |-> IF o.op = "put" THEN o.x ELSE 0,
                              expect |-> out'.e,
                              grant |-> IF o.op \in {"unlock", "drop"} THEN out'.v ELSE "none"])
           ELSE hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
View == <<guard, wait, data>>
Emit == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
