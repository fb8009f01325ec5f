--------------------------- MODULE MCLinkRegistry ---------------------------
EXTENDS LinkRegistry, Json
CONSTANTS SimDepth, MaxLinks, MaxActs
VARIABLE hist
Basics == [op : {"add", "remove"}, s : Sources, t : Targets] \cup
          [op : {"can", "ask"}, t : Targets]
Scripts == {[op |-> "script", s |-> s, acts |-> as] : s \in Linking,
             as \in {<<a>> : a \in Basics} \cup {<<a, b>> : a, b \in [op : {"add", "remove"}, s : {"a1", "p"}, t : Targets]}}
MCInit == Init /\ hist = <<>>
MCNext == \E o \in Basics \cup Scripts : Do(o) /\ hist' = hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
RECURSIVE SumS(_, _)
SumS(f, E) == IF E = {} THEN 0 ELSE LET e == CHOOSE x \in E : TRUE
                                    IN f[e] + SumS(f, E \ {e})
Small == /\ SumS([s \in Sources |-> SumS(lr.cnt[s], Targets)], Sources) <= MaxLinks
         /\ SumS([s \in Linking |-> Len(lr.scr[s])], Linking) <= MaxActs
View == lr
Pick(X) == RandomElement(X)
PickT(h) == IF Pick(1..3) = 1 THEN Pick(Targets) ELSE "t1"
PickAct(h, w) ==
  CASE w <= 3 -> [op |-> "add", s |-> Pick(Sources), t |-> PickT(h)]
    [] w <= 5 -> [op |-> "remove", s |-> Pick(Sources), t |-> PickT(h)]
    [] w = 6 -> [op |-> "can", t |-> PickT(h)]
    [] OTHER -> [op |-> "ask", t |-> PickT(h)]
RECURSIVE Repeat(_, _)
Repeat(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Repeat(x, n - 1)
\* often: a source told to remove its links tells the registry
PickScript(h) == LET s == Pick(Linking) IN
  [op |-> "script", s |-> s,
   acts |-> IF Pick({TRUE, FALSE}) THEN Repeat([op |-> "remove", s |-> s, t |-> "t1"], Pick(1..3))
            ELSE [i \in 1..Pick(0..3) |-> PickAct(h, Pick(1..7))]]
PickOp(h) == IF Pick(1..4) = 1 THEN PickScript(h) ELSE PickAct(h, Pick(1..8))
SimNext == Len(hist) < SimDepth /\ \E o \in {PickOp(i) : i \in 1..1} :
             Do(o) /\ hist' = Append(hist, o)
SimSpec == MCInit /\ [][SimNext]_<<vars, hist>>
Emitted == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
