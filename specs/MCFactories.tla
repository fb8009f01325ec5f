---------------------------- MODULE MCFactories ----------------------------
EXTENDS Factories, TLC, Json
CONSTANTS SimDepth
VARIABLE hist
MCInit == Init /\ hist = <<>>
Ops == [op : {"register"}, n : Names, u : Ids, k : Kinds]
       \cup [op : {"get"}, u : Ids] \cup [op : {"atn"}, n : Names]
       \cup [op : {"create"}, via : {"sim"}, u : Ids, n : {"i1", "i2"}, d : {"d"}, p : {"sim"}, bad : BOOLEAN]
       \cup [op : {"delete"}, f : Ids, n : {"i1", "i2"}] \cup [op : {"drop"}]
MCNext == UNCHANGED hist /\ \E o \in Ops : Legal(o) /\ Do(o)
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
\* instances only have the uuid of a factory that makes them
Owned == \A x \in insts : \E i \in 1..Len(facs) : facs[i].u = x.u /\ facs[i].k \in {"right", "type2"}
Refused == [][out'.e # "ok" => facs' = facs /\ insts' = insts]_<<vars, hist>>
Kept == [][\A i \in 1..Len(facs) : facs' = <<>> \/ (i <= Len(facs') /\ facs'[i] = facs[i])]_<<vars, hist>>
View == <<facs, insts>>
Pick(X) == RandomElement(X)
SimInsts == {"i1", "i2", "i3"}
PickOp(h) ==
  LET w == Pick(1..20) u == Pick(Ids) n == Pick(Names) IN
  CASE w <= 6 -> [op |-> "register", n |-> n, u |-> u, k |-> Pick({"right", "right"} \cup Kinds)]
    [] w <= 8 -> [op |-> "get", u |-> u]
    [] w <= 10 -> [op |-> "atn", n |-> n]
    [] w = 11 -> [op |-> "ati", i |-> Pick(0..5)]
    [] w = 12 -> [op |-> "all"]
    [] w <= 17 -> [op |-> "create", via |-> Pick({"sim", "fac"}), u |-> u, n |-> Pick(SimInsts),
                   d |-> Pick({"", "text"}), p |-> Pick({"sim", "none"}), bad |-> Pick(1..5) = 1]
    [] w <= 19 -> [op |-> "delete", f |-> u, n |-> Pick(SimInsts)]
    [] OTHER -> IF Pick(1..4) = 1 THEN [op |-> "drop"] ELSE [op |-> "all"]
SimNext == /\ Len(hist) < SimDepth
           /\ \E o \in {PickOp(i) : i \in 1..1} :
                IF Legal(o) THEN Do(o) /\ hist' = Append(hist, o)
                ELSE Do([op |-> "all"]) /\ hist' = Append(hist, [op |-> "all"])
SimSpec == MCInit /\ [][SimNext]_<<vars, hist>>
Emitted == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
