---------------------------- MODULE MCFixedArray ----------------------------
EXTENDS FixedArray, TLC, Json
CONSTANTS Values, SimDepth
VARIABLE hist
MCSlots == {"x", "y", "z", "o", "e"}
MCSize == [x |-> 2, y |-> 2, z |-> 2, o |-> 1, e |-> 0]
Builds == UNION {[1..n -> Values] : n \in 0..2}
Ops == [op : {"fill"}, k : Slots, x : Values] \cup
       [op : {"build"}, k : Slots, s : Builds] \cup
       [op : {"put_at", "put_raw"}, k : Slots, i : 0..2, x : Values] \cup
       [op : {"at", "get"}, k : Slots, i : 0..2] \cup
       [op : {"content"}, k : Slots, how : {"forward", "reverse"}] \cup
       [op : {"sizes"}, k : Slots] \cup
       [op : {"copy", "swap"}, k : Slots, j : Slots] \cup
       [op : {"rel"}, k : Slots, j : Slots, r : {"eq", "ne", "lt", "le", "gt", "ge"}]
MCInit == Init /\ hist = <<>>
MCNext == \E o \in Ops : Do(o) /\
             hist' = IF SimDepth > 0 THEN Append(hist, o) ELSE hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
View == arr
Emit == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
