--------------------------- MODULE MCContainment ---------------------------
EXTENDS Containment, Json
CONSTANTS SimDepth, MaxRefs, MaxActs, Ns, Kinds, Ps
VARIABLE hist
Cs == Slots \cup {"null"}
Creates == [op : {"create"}, c : Slots, n : Ns, k : Kinds, p : Ps]
Adds == [op : {"add", "del"}, x : Containers, c : Cs]
Refs == [op : {"ref", "unref"}, x : References, c : Cs]
Others == [op : {"unlink", "connect"}, c : Slots] \cup {[op |-> "publish"], [op |-> "destroy"]}
Scripts == {[op |-> "script", c |-> c, acts |-> as] : c \in Slots,
             as \in {<<[op |-> "del", x |-> "c1", c |-> d]>> : d \in Slots} \cup
                    {<<[op |-> "throw"]>>}}
MCInit == Init /\ hist = <<>>
MCNext == \E o \in Creates \cup Adds \cup Refs \cup Others \cup Scripts : Do(o) /\ hist' = hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
RECURSIVE SumS(_, _)
SumS(f, E) == IF E = {} THEN 0 ELSE LET e == CHOOSE x \in E : TRUE
                                    IN f[e] + SumS(f, E \ {e})
Small == /\ SumS([s \in References |-> Len(cc.rf[s])], References) <= MaxRefs
         /\ SumS([s \in Slots |-> Len(cc.scr[s])], Slots) <= MaxActs
         /\ ~cc.dead
View == cc
Pick(X) == RandomElement(X)
PickN(h) == IF Pick(1..5) = 1 THEN Pick(Ns) ELSE Pick({"a", "b", "c", "d", "e"})
Made(h) == {c \in Slots : Exists(cc, c)}
PickC(h) == IF Made(h) = {} \/ Pick(1..10) = 1 THEN Pick(Cs) ELSE Pick(Made(h))
Owned(h) == {<<x, c>> \in Containers \X Slots : In(c, cc.ct[x])}
PickDel(h) == IF Owned(h) = {} \/ Pick(1..5) = 1
              THEN [op |-> "del", x |-> Pick(Containers), c |-> PickC(h)]
              ELSE LET p == Pick(Owned(h)) IN [op |-> "del", x |-> p[1], c |-> p[2]]
PickUnref(h) == LET L == {<<x, c>> \in References \X Slots : In(c, cc.rf[x])}
  IN IF L = {} \/ Pick(1..4) = 1 THEN [op |-> "unref", x |-> Pick(References), c |-> PickC(h)]
     ELSE LET p == Pick(L) IN [op |-> "unref", x |-> p[1], c |-> p[2]]
\* calls from a hook: no container with a lower bound
PickAct(h, w) ==
  CASE w <= 3 -> LET D == {q \in Owned(h) : q[1] # "c2"} IN
                 IF D = {} THEN [op |-> "connect", c |-> PickC(h)]
                 ELSE LET p == Pick(D) IN [op |-> "del", x |-> p[1], c |-> p[2]]
    [] w = 4 -> [op |-> "add", x |-> Pick({"c1", "c3"}), c |-> PickC(h)]
    [] w = 5 -> [op |-> "ref", x |-> Pick(References), c |-> PickC(h)]
    [] w = 6 -> PickUnref(h)
    [] OTHER -> [op |-> "throw"]
PickScript(h) == [op |-> "script", c |-> PickC(h),
                  acts |-> [i \in 1..Pick(0..3) |-> PickAct(h, Pick(1..7))]]
PickOp(h) ==
  LET w == Pick(1..24) IN
  CASE Len(hist) = SimDepth - 1 -> [op |-> "destroy"]
    [] w <= 5 \/ Len(hist) < 3 ->
         [op |-> "create", c |-> Pick(Slots), n |-> PickN(h),
          k |-> Pick(Kinds \cup {"special"}), p |-> IF Pick(1..8) = 1 THEN Pick(Ps) ELSE "r"]
    [] w <= 11 -> [op |-> "add", x |-> Pick(Containers), c |-> PickC(h)]
    [] w <= 14 -> PickDel(h)
    [] w <= 17 -> [op |-> "ref", x |-> Pick(References), c |-> PickC(h)]
    [] w <= 19 -> PickUnref(h)
    [] w = 20 -> [op |-> "unlink", c |-> PickC(h)]
    [] w <= 22 -> [op |-> "connect", c |-> PickC(h)]
    [] OTHER -> IF Pick(1..8) = 1 THEN [op |-> "publish"] ELSE PickScript(h)
SimNext == Len(hist) < SimDepth /\ \E o \in {PickOp(i) : i \in 1..1} :
             Do(o) /\ hist' = Append(hist, o)
SimSpec == MCInit /\ [][SimNext]_<<vars, hist>>
Emitted == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
