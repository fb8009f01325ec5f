---------------------------- MODULE MCCheckpoint ----------------------------
EXTENDS Checkpoint, Json
CONSTANTS SimDepth
VARIABLE hist
Adds == [op : {"add"}, kind : {"sim", "imm"}, ep : {"e1"}, t : {1}, c : {1}, r : {1}]
Small == /\ ck.sc.last <= 0 /\ ck.sc.now <= 1 /\ Len(ck.em.names) <= User + 1
Acts == Adds \cup [op : {"remove"}, id : {0}] \cup [op : {"run"}, t : {1}] \cup
        [op : {"set_epoch"}, t : {1}] \cup
        [op : {"query"}, n : {"a"}] \cup [op : {"sub", "emit"}, id : {20}, ep : {"s1"}] \cup
        [op : {"put"}, i : {"m"}, s : Slots, v : {1}] \cup [op : {"freeze", "unforce"}, i : {"m"}]
Files == [op : {"store", "restore", "more"}, k : {1}] \cup [op : {"fresh"}]
MCInit == Init /\ hist = <<>>
MCNext == \E o \in Acts \cup Files : Do(o) /\ hist' = hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
View == ck
Resuming == \A o \in Acts : Resumes(o)

Pick(X) == RandomElement(X)
Ids(S) == DOMAIN S.sc.ev
PickId(h) == IF Pick(1..8) = 1 \/ Ids(ck) = {} THEN Pick(-1..ck.sc.last + 2)
             ELSE Pick(Ids(ck) \cup {ck.sc.last + 1})
PickEv(h) == Pick({20, 20, 21, 22, 23} \cup (User + 1)..Len(ck.em.names) + 1)
PickSched(w) ==
  CASE w <= 3 -> [op |-> "add", kind |-> "sim", ep |-> Pick(Eps), t |-> Pick(0..9), c |-> Pick(1..4),
                  r |-> Pick(-1..3)]
    [] w = 4 -> LET k == Pick({"epoch", "mission"})
                IN [op |-> "add", kind |-> k, ep |-> Pick(Eps),
                    t |-> (IF k = "epoch" THEN SC!Epoch(ck.sc) ELSE SC!Mission(ck.sc)) + Pick(0..9),
                    c |-> Pick(1..4), r |-> Pick(0..1)]
    [] w = 5 -> [op |-> "add", kind |-> "imm", ep |-> Pick(Eps), t |-> 0, c |-> 0, r |-> 0]
    [] w = 6 -> [op |-> "remove", id |-> PickId(w)]
    [] w = 7 -> [op |-> "cycle", id |-> PickId(w), c |-> Pick(-1..4)]
    [] w = 8 -> [op |-> "repeat", id |-> PickId(w), r |-> Pick(-1..3)]
    [] w = 9 -> LET id == PickId(w)
                    k == IF id \in Ids(ck) THEN ck.sc.ev[id].kind ELSE "sim"
                IN [op |-> "set", kind |-> k, id |-> id,
                    t |-> Pick(-1..6) + CASE k = "sim" -> 0 [] k = "epoch" -> SC!Epoch(ck.sc)
                                          [] OTHER -> SC!Mission(ck.sc)]
    [] w = 10 -> [op |-> Pick({"set_epoch", "set_start", "set_mission"}), t |-> Pick(-9..30)]
    [] OTHER -> [op |-> "run", t |-> Pick(0..9)]
PickEvent(w) ==
  CASE w <= 2 -> [op |-> "query", n |-> Pick({"a", "b", "c", "d"})]
    [] w <= 4 -> [op |-> "sub", id |-> PickEv(w), ep |-> Pick(Subs)]
    [] w = 5 -> [op |-> "unsub", id |-> PickEv(w), ep |-> Pick(Subs)]
    [] OTHER -> [op |-> "emit", id |-> PickEv(w)]
PickMem(w) ==
  LET s == Pick(Slots) i == Pick(Insts) IN
  CASE w <= 5 -> [op |-> "put", i |-> i, s |-> s,
                  v |-> CASE s = "x" -> Pick(0..1) [] s = "g" -> Pick(0..3) [] OTHER -> Pick(0..99)]
    [] w = 6 -> [op |-> "force", i |-> i, v |-> Pick(0..99)]
    [] w = 7 -> [op |-> "freeze", i |-> i]
    [] OTHER -> [op |-> "unforce", i |-> i]
PickFile(w) ==
  LET k == IF DOMAIN ck.files = {} \/ Pick(1..3) = 1 THEN Pick(1..3) ELSE Pick(DOMAIN ck.files) IN
  CASE w <= 4 -> [op |-> "store", k |-> k]
    [] w <= 8 -> [op |-> "restore", k |-> IF DOMAIN ck.files = {} THEN k ELSE Pick(DOMAIN ck.files)]
    [] w = 9 -> Pick({[op |-> "cut", k |-> k, p |-> Pick(0..99)], [op |-> "more", k |-> k],
                      [op |-> "cut", k |-> k, p |-> Pick(50..99)],
                      [op |-> "stray", w |-> Pick({"sched", "em", "hook"})], [op |-> "nostore"]})
    [] w = 10 -> IF Pick(1..4) = 1 THEN [op |-> "restore", k |-> k] ELSE [op |-> "store", k |-> k]
    [] OTHER -> [op |-> "fresh"]
PickOp(h) == LET w == Pick(1..13) IN
  CASE w <= 4 -> PickSched(Pick(1..13))
    [] w <= 6 -> PickEvent(Pick(1..8))
    [] w <= 9 -> PickMem(Pick(1..8))
    [] OTHER -> PickFile(Pick(1..12))
SimNext == Len(hist) < SimDepth /\ \E o \in {PickOp(i) : i \in 1..2} :
             Do(o) /\ hist' = Append(hist, o)
SimSpec == MCInit /\ [][SimNext]_<<vars, hist>>
Emitted == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
