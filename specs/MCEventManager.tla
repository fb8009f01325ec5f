--------------------------- MODULE MCEventManager ---------------------------
EXTENDS EventManager, Json
CONSTANTS SimDepth, Rich
VARIABLE hist
P == Len(Predefined)
Ns == IF Rich THEN {"", "a", "b", "c", "SMP_EnterStandby", "SMP_PostSimTimeChange", "A"} ELSE {"", "a"}
Is == IF Rich THEN {-1, 0, 1, 4, 13, 19, P + 1, P + 2, P + 3, P + 4} ELSE {13, P + 1}
Basics == [op : {"query"}, n : Ns] \cup [op : {"sub", "unsub"}, id : Is, ep : Eps] \cup
          [op : {"emit"}, id : Is]
Throw == [op |-> "throw"]
Scripts == {[op |-> "script", ep |-> e, acts |-> as] : e \in Eps,
             as \in {<<a>> : a \in Basics \cup {Throw}} \cup
                    {<<[op |-> "unsub", id |-> P + 1, ep |-> e2], Throw>> : e2 \in Eps}}
MCInit == Init /\ hist = <<>>
MCNext == \E o \in Basics \cup Scripts : Do(o) /\ hist' = hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
RECURSIVE Sum(_)
Sum(E) == IF E = {} THEN 0 ELSE LET e == CHOOSE x \in E : TRUE
                                IN Len(em.scr[e]) + Sum(E \ {e})
Small == Sum(Eps) <= 2
View == em
Pick(X) == RandomElement(X)
PickId(h) == IF Pick(1..12) = 1 THEN Pick({-1, 0, 77}) ELSE
             IF Pick(1..4) = 1 THEN Pick(1..P) ELSE Pick({13} \cup P + 1..Len(em.names) + 1)
PickAct(h, w) ==
  CASE w <= 2 -> [op |-> "query", n |-> Pick(Ns)]
    [] w <= 5 -> [op |-> "sub", id |-> PickId(h), ep |-> Pick(Eps)]
    [] w <= 7 -> [op |-> "unsub", id |-> PickId(h), ep |-> Pick(Eps)]
    [] OTHER -> [op |-> "emit", id |-> PickId(h)]
PickScript(h) == [op |-> "script", ep |-> Pick(Eps),
                  acts |-> [i \in 1..Pick(0..3) |->
                     IF Pick(1..25) = 1 THEN Throw ELSE PickAct(h, Pick(1..8))]]
PickOp(h) == IF Pick(1..4) = 1 THEN PickScript(h) ELSE PickAct(h, Pick(1..11))
SimNext == Len(hist) < SimDepth /\ \E o \in {PickOp(i) : i \in 1..2} :
             Do(o) /\ hist' = Append(hist, o)
SimSpec == MCInit /\ [][SimNext]_<<vars, hist>>
Emitted == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
