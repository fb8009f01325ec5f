--------------------------- MODULE MCCollections ---------------------------
EXTENDS Collections, Json
CONSTANTS SimDepth, MaxLen, Es
VARIABLE hist
Ops == [op : {"add", "remove"}, l : Lists, e : Es] \cup [op : {"clear"}, l : Lists]
MCInit == Init /\ hist = <<>>
MCNext == \E o \in Ops : Do(o) /\ hist' = hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Small == \A l \in Lists : Len(co.c[l]) <= MaxLen
View == co
Pick(X) == RandomElement(X)
PickOp(h) == LET w == Pick(1..20) IN
  IF w = 1 THEN [op |-> "clear", l |-> Pick(Lists)]
  ELSE [op |-> IF w <= 14 THEN "add" ELSE "remove", l |-> Pick(Lists), e |-> Pick(Elements)]
SimNext == Len(hist) < SimDepth /\ \E o \in {PickOp(i) : i \in 1..1} :
             Do(o) /\ hist' = Append(hist, o)
SimSpec == MCInit /\ [][SimNext]_<<vars, hist>>
Emitted == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
