-------------------------------- MODULE Zulu --------------------------------
(* Events posted for a time of the clock of the computer, seen as ticks, and   *)
(* the pace of a run.  Calls are made before tick 0; "wait" lets the clock run *)
(* to the given tick, the scripts of the entry points make further calls.      *)
(* Times that are not after the current tick are past.                         *)
(*   ev    events by identifier: entry point, tick, cycle, repeat, kind        *)
(*         (0 is the event that ends the wait: left alone)                        *)
(*   clk   current tick, cur event being executed, off no event is executed    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES zul, out
vars == <<zul, out>>
CONSTANT Slots

Empty == [ev |-> [i \in {} |-> 0], last |-> 0, clk |-> -1, cur |-> -1, off |-> FALSE,
          gone |-> {}, scr |-> [s \in Slots |-> <<>>], log |-> <<>>,
          res |-> [e |-> "ok", v |-> 0]]
Ids(S) == DOMAIN S.ev
Ret(S, e, v) == [S EXCEPT !.res = [e |-> e, v |-> v]]
Without(S, i) == [S EXCEPT !.ev = [j \in Ids(S) \ {i} |-> S.ev[j]]]

Add(S, a) ==
  IF a.kind = "zulu" /\ a.t <= S.clk THEN Ret(S, "InvalidEventTime", 0)
  ELSE IF a.r # 0 /\ a.c <= 0 THEN Ret(S, "InvalidCycleTime", 0)
  ELSE LET i == S.last + 1
       IN Ret([S EXCEPT !.last = i,
                 !.ev = @ @@ (i :> [ep |-> a.ep, at |-> a.t, cyc |-> a.c, rep |-> a.r,
                                     kind |-> a.kind])], "ok", i)
\* the event being executed is removed afterwards; gone: and not before it is set again
Drop(S, i) == IF S.cur = i THEN [S EXCEPT !.ev[i].rep = 0, !.gone = @ \cup {i}]
              ELSE Without(S, i)
Set(S, a) ==
  IF a.id \notin Ids(S) \/ S.ev[a.id].kind # a.kind THEN Ret(S, "InvalidEventId", 0)
  ELSE IF a.kind = "zulu" /\ a.t <= S.clk THEN Ret(Drop(S, a.id), "ok", 0)
  ELSE Ret([S EXCEPT !.ev[a.id].at = a.t, !.gone = @ \ {a.id}], "ok", 0)
Cycle(S, a) ==
  IF a.id \notin Ids(S) THEN Ret(S, "InvalidEventId", 0)
  ELSE IF S.ev[a.id].rep # 0 /\ a.c <= 0 THEN Ret(S, "InvalidCycleTime", 0)
  ELSE Ret([S EXCEPT !.ev[a.id].cyc = a.c], "ok", 0)
Repeat(S, a) ==
  IF a.id \notin Ids(S) THEN Ret(S, "InvalidEventId", 0)
  ELSE IF a.r # 0 /\ S.ev[a.id].cyc <= 0 THEN Ret(S, "InvalidCycleTime", 0)
  ELSE Ret([S EXCEPT !.ev[a.id].rep = a.r], "ok", 0)
Remove(S, a) == IF a.id \notin Ids(S) THEN Ret(S, "InvalidEventId", 0)
                ELSE Ret(Drop(S, a.id), "ok", 0)
Basic(S0, a) ==
  LET S == Ret(S0, "ok", 0)
  IN CASE a.op \in {"set", "cycle", "repeat", "remove"} /\ a.id = 0 -> S
       [] a.op = "add" -> Add(S, a)
       [] a.op = "set" -> Set(S, a)
       [] a.op = "cycle" -> Cycle(S, a)
       [] a.op = "repeat" -> Repeat(S, a)
       [] a.op = "remove" -> Remove(S, a)
       [] a.op = "abort" -> [S EXCEPT !.off = TRUE]
       [] a.op = "script" -> [S EXCEPT !.scr[a.ep] = Append(@, a.acts)]

RECURSIVE Acts(_, _), Loop(_, _)
Acts(S, as) ==
  IF as = <<>> THEN S
  ELSE LET S1 == Basic(S, Head(as))
       IN Acts([S1 EXCEPT !.log = Append(@, [k |-> "did", id |-> S1.res.v, e |-> S1.res.e,
                                              at |-> S.clk])],
               Tail(as))
Visit(S, slot) ==
  LET S1 == [S EXCEPT !.log = Append(@, [k |-> slot, id |-> S.cur, e |-> "", at |-> S.clk])]
  IN IF S.scr[slot] = <<>> THEN S1
     ELSE Acts([S1 EXCEPT !.scr[slot] = Tail(@)], Head(S.scr[slot]))
Zulus(S, t) == {i \in Ids(S) : S.ev[i].kind = "zulu" /\ S.ev[i].at <= t}
First(S, I) == CHOOSE i \in I : \A j \in I : \/ S.ev[i].at < S.ev[j].at
                                             \/ S.ev[i].at = S.ev[j].at /\ i <= j
Finish(S, i, at) ==
  LET e == S.ev[i]
      set == e.at # at \* it changed its own time (never to the same)
      r == IF e.rep > 0 THEN e.rep - 1 ELSE e.rep
  IN IF set /\ i \notin S.gone THEN [S EXCEPT !.ev[i].rep = r]
     ELSE IF e.rep = 0 THEN Without(S, i)
     ELSE [S EXCEPT !.ev[i].rep = r, !.ev[i].at = @ + e.cyc]
Execute(S0, i) ==
  LET at == S0.ev[i].at
      S == [S0 EXCEPT !.clk = at, !.gone = {}]
      S1 == IF S.off THEN S ELSE [Visit([S EXCEPT !.cur = i], S.ev[i].ep) EXCEPT !.cur = -1]
  IN Finish(S1, i, at)
Loop(S, t) == IF Zulus(S, t) = {} THEN [S EXCEPT !.clk = t]
              ELSE Loop(Execute(S, First(S, Zulus(S, t))), t)

Fresh(S) == [S EXCEPT !.log = <<>>, !.res = [e |-> "ok", v |-> 0], !.gone = {}]
Speed(x) == IF x < 1 THEN 1 ELSE IF x > 10000 THEN 10000 ELSE x
Init == zul = Empty /\ out = [e |-> "ok", v |-> [id |-> 0, log |-> <<>>]]
Do(o) ==
  CASE o.op = "wait" ->
         LET S == Loop(zul, o.t)
         IN zul' = Fresh(S) /\ out' = [e |-> "ok", v |-> [id |-> 0, log |-> S.log]]
    \* not executed early, alone, and the run ends once its events are executed
    [] o.op = "pace" -> out' = [e |-> "ok", v |-> [paced |-> TRUE, alone |-> TRUE,
                                                   now |-> o.t, n |-> o.n]]
                        /\ UNCHANGED zul
    \* without event it does not end, and simulation time stands still
    [] o.op = "free" -> out' = [e |-> "ok", v |-> "Executing"] /\ UNCHANGED zul
    [] o.op = "speed" -> out' = [e |-> "ok", v |-> Speed(o.x)] /\ UNCHANGED zul
    [] OTHER ->
         LET S == Basic(zul, o)
         IN zul' = Fresh(S) /\ out' = [e |-> S.res.e, v |-> [id |-> S.res.v, log |-> <<>>]]

-----------------------------------------------------------------------------
Quiet == zul.cur = -1
NotPast == \A i \in Ids(zul) : zul.ev[i].kind = "zulu" => zul.ev[i].at > zul.clk
CyclicPositive == \A i \in Ids(zul) : zul.ev[i].rep # 0 => zul.ev[i].cyc > 0
Fresher == \A i \in Ids(zul) : i <= zul.last
=============================================================================
