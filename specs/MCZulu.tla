------------------------------- MODULE MCZulu -------------------------------
EXTENDS Zulu, Json
CONSTANTS SimDepth, Rich
VARIABLE hist
Eps == Slots
Is == IF Rich THEN -1..9 ELSE 1..3
T == IF Rich THEN 0..6 ELSE 0..2
Adds == [op : {"add"}, kind : {"zulu", "sim"}, ep : Eps, t : T, c : 0..1, r : -1..1]
Changes == [op : {"set"}, kind : {"zulu", "sim"}, id : Is, t : T] \cup
           [op : {"cycle"}, id : Is, c : IF Rich THEN -1..3 ELSE 0..1] \cup
           [op : {"repeat"}, id : Is, r : -1..1] \cup [op : {"remove"}, id : Is]
Scripts == {[op |-> "script", ep |-> s, acts |-> <<a>>] : s \in Eps, a \in Changes \cup
              [op : {"add"}, kind : {"zulu"}, ep : Eps, t : T, c : {1}, r : 0..1] \cup
              [op : {"abort"}]}
MCInit == Init /\ hist = <<>>
MCNext == \E o \in Adds \cup Changes \cup Scripts \cup [op : {"wait"}, t : 0..2] :
            /\ o.op = "script" => zul.scr = Empty.scr
            /\ o.op = "wait" => o.t > zul.clk
            /\ Do(o) /\ hist' = hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Small == zul.last <= 2
View == zul
\* a wait executes exactly the events due
Due == [][zul'.clk > zul.clk => \A i \in Ids(zul) \cap Ids(zul') :
             zul.ev[i].kind = "sim" /\ zul.scr = Empty.scr => zul'.ev[i] = zul.ev[i]]_vars
Pick(X) == RandomElement(X)
PickAct(h, w, i) ==
  CASE w <= 4 -> [op |-> "add", kind |-> IF Pick(1..6) = 1 THEN "sim" ELSE "zulu", ep |-> Pick(Eps),
                  t |-> Pick(T), c |-> Pick(1..3), r |-> Pick({0, 0, 0, 1, 2, -1})]
    [] w <= 6 -> [op |-> "set", kind |-> IF Pick(1..6) = 1 THEN "sim" ELSE "zulu", id |-> i, t |-> Pick(T)]
    [] w = 7 -> [op |-> "cycle", id |-> i, c |-> Pick(-1..3)]
    [] w = 8 -> [op |-> "repeat", id |-> i, r |-> Pick(-1..2)]
    [] w = 9 -> [op |-> "remove", id |-> i]
    [] OTHER -> IF Pick(1..4) = 1 /\ h > 0 THEN [op |-> "abort"]
                ELSE [op |-> "remove", id |-> i]
PickOp(h) == CASE Len(hist) = SimDepth - 1 -> [op |-> "wait", t |-> 7]
               [] Len(hist) # SimDepth - 1 /\ Pick(1..3) = 1 ->
                    [op |-> "script", ep |-> Pick(Slots),
                     acts |-> [k \in 1..Pick(0..3) |-> PickAct(1, Pick(1..10), Pick(0..zul.last + 2))]]
               [] OTHER -> PickAct(0, IF Pick(1..2) = 1 THEN 1 ELSE Pick(1..9),
                                   Pick(-1..zul.last + 1))
SimNext == Len(hist) < SimDepth /\ \E o \in {PickOp(i) : i \in 1..3} :
             Do(o) /\ hist' = Append(hist, o)
SimSpec == MCInit /\ [][SimNext]_<<vars, hist>>
Emitted == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
