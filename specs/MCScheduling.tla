---------------------------- MODULE MCScheduling ----------------------------
EXTENDS Scheduling, Json
CONSTANTS SimDepth, Rich, WithScripts, Last
VARIABLE hist
Eps == IF Rich THEN {"e1", "e2", "e3"} ELSE {"e1"}
Kinds == IF Rich THEN {"sim", "epoch", "mission"}
         ELSE {"sim"} \cup IF WithScripts THEN {} ELSE {"epoch"}
Is == IF Rich THEN -1..12 ELSE 0..Last + 1
T == IF Rich THEN -2..9 ELSE -1..1
Adds == [op : {"add"}, kind : Kinds, ep : Eps, t : T, c : IF Rich THEN -1..4 ELSE {1},
         r : IF Rich THEN -1..3 ELSE -1..1] \cup
        [op : {"add"}, kind : {"imm"}, ep : Eps, t : {0}, c : {0}, r : {0}]
Changes == [op : {"set"}, kind : Kinds, id : Is, t : T] \cup
           [op : {"cycle"}, id : Is, c : IF Rich THEN -1..4 ELSE 0..1] \cup
           [op : {"repeat"}, id : Is, r : IF Rich THEN -1..3 ELSE -1..1] \cup
           [op : {"remove"}, id : Is]
Times == [op : {"set_sim"}, t : T] \cup
         (IF WithScripts THEN {} ELSE [op : {"set_epoch"}, t : T]) \cup
         IF Rich THEN [op : {"set_start"}, t : T] \cup [op : {"set_mission"}, t : T] ELSE {}
Ctl == [op : {"hold", "hold_later", "abort"}]
Runs == [op : {"run"}, t : IF Rich THEN -1..12 ELSE 0..1] \cup
        [op : {"runfree"}, t : IF Rich THEN 0..12 ELSE 1..1]
Emits == [op : {"emit_pre", "emit_post"}]
Throw == [op |-> "throw"]
Basics == Adds \cup Changes \cup Times \cup Ctl
Scripts == {[op |-> "script", ep |-> s, acts |-> <<a>>] :
              s \in {"e1", "pre", "enter"},
              a \in Changes \cup Times \cup Ctl \cup {Throw} \cup
                    [op : {"add"}, kind : {"sim"}, ep : {"e1"}, t : 0..1, c : {1}, r : {0, 1}] \cup
                    [op : {"add"}, kind : {"imm"}, ep : {"e1"}, t : {0}, c : {0}, r : {0}]}
MCInit == Init /\ hist = <<>>
MCNext == \E o \in Basics \cup Runs \cup Emits \cup (IF WithScripts THEN Scripts ELSE {}) :
            /\ o.op = "script" => sch.scr = Empty.scr
            /\ o.op \in {"add", "set", "cycle", "repeat", "remove"} => sch.st = "Standby"
            /\ Do(o)
            /\ o.op = "run" => Assert(ExactRun(sch, o.t, out'.v.o.log), <<"run", sch, out'>>)
            /\ hist' = hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Small == /\ sch.last <= Last /\ sch.now <= 1 /\ sch.es \in -1..1 /\ sch.ms \in -1..1
         /\ sch.st # "Aborting"
View == sch

\* simulation
Pick(X) == RandomElement(X)
\* an identifier that exists most of the time
PickId == IF Pick(1..8) = 1 \/ Ids(sch) = {} THEN Pick(-1..sch.last + 2)
          ELSE Pick(Ids(sch) \cup {sch.last + 1})
PickAdd(w) == CASE w <= 4 -> [op |-> "add", kind |-> "sim", ep |-> Pick(Eps), t |-> Pick(T),
                              c |-> Pick(1..4), r |-> Pick(-1..3)]
                [] w = 5 -> Pick(Adds)
                [] w = 6 -> [op |-> "add", kind |-> Pick({"mission", "epoch"}), ep |-> Pick(Eps),
                             t |-> (IF Pick({TRUE, FALSE}) THEN Epoch(sch) ELSE Mission(sch)) + Pick(T),
                             c |-> Pick(0..4), r |-> Pick(-1..1)]
                [] w = 7 -> [op |-> "add", kind |-> "imm", ep |-> Pick(Eps), t |-> 0, c |-> 0, r |-> 0]
                [] OTHER -> [op |-> "add", kind |-> "sim", ep |-> Pick(Eps), t |-> Pick(0..6),
                             c |-> 0, r |-> 0]
PickChange(w, id) ==
  CASE w <= 2 /\ id \in Ids(sch) ->
         LET k == sch.ev[id].kind
         IN [op |-> "set", kind |-> k, id |-> id,
             t |-> Pick(T) + CASE k = "sim" -> 0 [] k = "epoch" -> Epoch(sch) [] OTHER -> Mission(sch)]
    [] w <= 3 -> [op |-> "set", kind |-> Pick(Kinds), id |-> id, t |-> Pick(T)]
    [] w = 4 -> [op |-> "cycle", id |-> id, c |-> Pick(-1..4)]
    [] w = 5 -> [op |-> "repeat", id |-> id, r |-> Pick(-1..3)]
    [] OTHER -> [op |-> "remove", id |-> id]
PickTime(w) == CASE w <= 2 -> [op |-> "set_sim", t |-> Pick(T)]
                 [] w = 3 -> [op |-> "set_epoch", t |-> Pick(-9..30)]
                 [] w = 4 -> [op |-> "set_start", t |-> Pick(-9..30)]
                 [] OTHER -> [op |-> "set_mission", t |-> Pick(-9..30)]
PickAct(h) == LET w == Pick(1..20) IN
  CASE w <= 7 -> PickAdd(Pick(1..9))
    [] w <= 14 -> PickChange(Pick(1..6), PickId)
    [] w <= 17 -> PickTime(Pick(1..5))
    [] w = 18 -> [op |-> "hold"]
    [] w = 19 -> [op |-> "hold_later"]
    [] OTHER -> Pick({[op |-> "throw"], [op |-> "abort"], [op |-> "hold"], [op |-> "hold_later"]})
PickScript(h) == [op |-> "script", ep |-> Pick(Slots),
               acts |-> [i \in 1..Pick(0..3) |-> PickAct(h)]]
PickRun(h) == IF Pick(1..5) = 1 THEN [op |-> "runfree", t |-> Pick(0..12)]
           ELSE [op |-> "run", t |-> Pick(-1..12)]
PickOp(h) ==
  LET w == Pick(1..20) IN
  CASE Len(hist) = SimDepth - 1 -> [op |-> "run", t |-> 20]
    [] w <= 6 -> PickAdd(Pick(1..9))
    [] w <= 9 -> PickScript(h)
    [] w <= 12 -> PickChange(Pick(1..6), PickId)
    [] w <= 14 -> PickTime(Pick(1..5))
    [] w <= 18 -> PickRun(h)
    [] w = 19 -> Pick(Emits)
    [] OTHER -> IF Pick(1..10) = 1 THEN Pick(Ctl) ELSE PickRun(h)
SimNext == /\ Len(hist) < SimDepth
           /\ \E o \in {PickOp(i) : i \in 1..3} : Do(o) /\ hist' = Append(hist, o)
SimSpec == MCInit /\ [][SimNext]_<<vars, hist>>
Emitted == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
