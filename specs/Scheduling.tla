----------------------------- MODULE Scheduling -----------------------------
(* The scheduler and the time keeper of a connected simulation.  A public call *)
(* is one transition.  While the simulation runs, entry points and handlers of *)
(* PreSimTimeChange, PostSimTimeChange and EnterExecuting are called, each may *)
(* have a script of further calls, and the transition leaves a log.  Times are *)
(* in units of one tick.                                                       *)
(*   ev    events by identifier: entry point, next simulation time, time in    *)
(*         its own kind, cycle time, repeat, kind                              *)
(*   post  events waiting for their time, imm immediate events                 *)
(*   last  last identifier given, cur event being executed                     *)
(*   now   simulation time, es = now - epoch time, ms mission start            *)
(*   chg   the simulation time may be set, stop the loop has to stop           *)
(*   pend  hold at the next change of time, st state of the simulator          *)
(*   enders  identifiers of the events that end a run                          *)
(*   scr   scripts, log what happened, res outcome of the last call            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES sch, out
vars == <<sch, out>>
Never == 1000000000  \* the end of time
CONSTANT Slots  \* entry points with a script

NoEvents == [i \in {} |-> 0]
Empty == [ev |-> NoEvents, post |-> {}, imm |-> {}, last |-> -1, cur |-> -1,
          now |-> 0, es |-> 0, ms |-> 0, chg |-> FALSE, stop |-> TRUE,
          pend |-> FALSE, st |-> "Standby", scr |-> [s \in Slots |-> <<>>],
          enders |-> {}, log |-> <<>>, res |-> [e |-> "ok", v |-> 0]]

Ids(S) == DOMAIN S.ev
Min(I) == CHOOSE i \in I : \A j \in I : i <= j
Epoch(S) == S.now - S.es
Mission(S) == S.now - S.es - S.ms
Next1(S) == IF S.post = {} THEN Never ELSE Min({S.ev[i].next : i \in S.post})
Due(S, t) == {i \in S.post : S.ev[i].next = t}
Without(S, id) == [S EXCEPT !.ev = [i \in Ids(S) \ {id} |-> S.ev[i]]]
Unpost(S, id) == [S EXCEPT !.post = @ \ {id}, !.imm = @ \ {id}]
Ret(S, e, v) == [S EXCEPT !.res = [e |-> e, v |-> v]]
\* simulation time of time t of kind k
SimTime(S, k, t) == CASE k = "sim" -> S.now + t
                      [] k = "mission" -> S.now + t - Mission(S)
                      [] k = "epoch" -> S.now + t - Epoch(S)
OwnTime(S, k, t) == IF k = "sim" THEN S.now + t ELSE t

Store(S, ep, n, t, c, r, k) ==
  LET id == S.last + 1
  IN Ret([S EXCEPT !.ev = @ @@ (id :> [ep |-> ep, next |-> n, time |-> t, cyc |-> c,
                                        rep |-> r, kind |-> k]),
                   !.last = id], "ok", id)
Add(S, a) ==
  IF a.kind = "imm"
  THEN LET S1 == Store(S, a.ep, S.now, S.now, 0, 0, "sim")
       IN [S1 EXCEPT !.imm = @ \cup {S1.last}]
  ELSE LET n == SimTime(S, a.kind, a.t)
       IN IF n < S.now THEN Ret(S, "InvalidEventTime", 0)
          ELSE IF a.r # 0 /\ a.c <= 0 THEN Ret(S, "InvalidCycleTime", 0)
          ELSE LET S1 == Store(S, a.ep, n, OwnTime(S, a.kind, a.t), a.c, a.r, a.kind)
               IN [S1 EXCEPT !.post = @ \cup {S1.last}]
\* an event that removes itself is removed at the end of its execution
Drop(S, id) == LET S1 == Unpost(S, id)
               IN IF S.cur = id THEN [S1 EXCEPT !.ev[id].rep = 0] ELSE Without(S1, id)
Set(S, a) ==
  IF a.id \notin Ids(S) \/ S.ev[a.id].kind # a.kind THEN Ret(S, "InvalidEventId", 0)
  ELSE LET n == SimTime(S, a.kind, a.t)
       IN IF n < S.now THEN Ret(Drop(S, a.id), "ok", 0)
          ELSE Ret([Unpost(S, a.id) EXCEPT !.ev[a.id].next = n,
                      !.ev[a.id].time = OwnTime(S, a.kind, a.t),
                      !.post = @ \cup {a.id}], "ok", 0)
Cycle(S, a) ==
  IF a.id \notin Ids(S) THEN Ret(S, "InvalidEventId", 0)
  ELSE IF S.ev[a.id].rep # 0 /\ a.c <= 0 THEN Ret(S, "InvalidCycleTime", 0)
  ELSE Ret([S EXCEPT !.ev[a.id].cyc = a.c], "ok", 0)
Repeat(S, a) ==
  IF a.id \notin Ids(S) THEN Ret(S, "InvalidEventId", 0)
  ELSE IF a.r # 0 /\ S.ev[a.id].cyc <= 0 THEN Ret(S, "InvalidCycleTime", 0)
  ELSE Ret([S EXCEPT !.ev[a.id].rep = a.r], "ok", 0)
Remove(S, a) == IF a.id \notin Ids(S) THEN Ret(S, "InvalidEventId", 0)
                ELSE Ret(Drop(S, a.id), "ok", 0)
SetSim(S, a) ==
  IF ~S.chg THEN Ret(S, "ok", 0)
  ELSE IF S.now + a.t < S.now \/ S.now + a.t > Next1(S)
  THEN Ret(S, "InvalidSimulationTime", 0)
  ELSE Ret([S EXCEPT !.now = @ + a.t], "ok", 0)
Note(S, k, n) == [S EXCEPT !.log = Append(@, [k |-> k, id |-> n, now |-> S.now,
                                              ep |-> Epoch(S), mi |-> Mission(S)])]
SetEpoch(S, a) == Ret(Note([S EXCEPT !.es = S.now - a.t], "epoch", S.cur), "ok", 0)
SetStart(S, a) == Ret(Note([S EXCEPT !.ms = a.t], "mission", S.cur), "ok", 0)
SetMission(S, a) == Ret(Note([S EXCEPT !.ms = Epoch(S) - a.t], "mission", S.cur), "ok", 0)

Hold(S) == IF S.st # "Executing" THEN S
           ELSE [S EXCEPT !.st = "Standby", !.stop = TRUE, !.pend = FALSE, !.chg = FALSE]
Later(S) == IF S.st # "Executing" THEN S ELSE [S EXCEPT !.pend = TRUE]
Abort(S) == IF S.st = "Aborting" THEN S
            ELSE [S EXCEPT !.st = "Aborting", !.stop = TRUE, !.chg = FALSE]

\* the events that end a run are left alone
Legal(S, a) == a.op \in {"set", "cycle", "repeat", "remove"} => a.id \notin S.enders

Basic(S0, a) ==
  LET S == Ret(S0, "ok", 0) IN
  CASE ~Legal(S, a) -> S
    [] a.op = "add" -> Add(S, a)
    [] a.op = "set" -> Set(S, a)
    [] a.op = "cycle" -> Cycle(S, a)
    [] a.op = "repeat" -> Repeat(S, a)
    [] a.op = "remove" -> Remove(S, a)
    [] a.op = "set_sim" -> SetSim(S, a)
    [] a.op = "set_epoch" -> SetEpoch(S, a)
    [] a.op = "set_start" -> SetStart(S, a)
    [] a.op = "set_mission" -> SetMission(S, a)
    [] a.op = "hold" -> Hold(S)
    [] a.op = "hold_later" -> Later(S)
    [] a.op = "abort" -> Abort(S)
    [] a.op = "throw" -> S

RECURSIVE Acts(_, _), ImmLoop(_), SlotLoop(_, _), RunLoop(_)
Acts(S, as) ==
  IF as = <<>> THEN S
  ELSE IF Head(as).op = "throw" THEN Abort(S)
  ELSE LET S1 == Basic(S, Head(as))
       IN Acts([S1 EXCEPT !.log = Append(@, [k |-> "did", e |-> S1.res.e, v |-> S1.res.v, now |-> S1.now])],
               Tail(as))
\* a handler or entry point is called: the head of its script is carried out
Visit(S, slot) ==
  LET S1 == Note(S, slot, S.cur)
  IN IF slot \notin Slots \/ S.scr[slot] = <<>> THEN S1
     ELSE Acts([S1 EXCEPT !.scr[slot] = Tail(@)], Head(S.scr[slot]))

\* an event is in the past if epoch or mission time was set meanwhile
Past(S, e) == \/ e.kind = "epoch" /\ e.time < Epoch(S)
              \/ e.kind = "mission" /\ e.time < Mission(S)
Entry(S, ep) == CASE ep = "stopN" -> Later(S)
                  [] ep = "stopI" -> Hold(S)
                  [] OTHER -> Visit(S, ep)
Finish(S, id) ==
  LET posted == id \in S.post  \* it set its own time
      e == S.ev[id]
      r == IF e.rep > 0 THEN e.rep - 1 ELSE e.rep
  IN IF posted THEN [S EXCEPT !.ev[id].rep = r]
     ELSE IF e.rep = 0 THEN Without(Unpost(S, id), id)
     ELSE [S EXCEPT !.ev[id].rep = r, !.ev[id].next = @ + e.cyc, !.ev[id].time = @ + e.cyc,
                    !.post = @ \cup {id}]
Execute(S0, id) ==
  LET S == Unpost(S0, id)
  IN Finish(IF Past(S, S.ev[id]) THEN S
            ELSE [Entry([S EXCEPT !.cur = id], S.ev[id].ep) EXCEPT !.cur = -1], id)

ImmLoop(S) ==
  IF S.stop \/ S.imm = {} THEN S
  ELSE LET i == Min(S.imm)
       IN ImmLoop(Execute([S EXCEPT !.ev[i].next = S.now, !.ev[i].time = S.now], i))
\* first posted, first executed
SlotLoop(S0, t) ==
  LET S == ImmLoop(S0)
  IN IF S.stop \/ Due(S, t) = {} THEN S ELSE SlotLoop(Execute(S, Min(Due(S, t))), t)
EmitPre(S) == LET S1 == Visit([S EXCEPT !.chg = TRUE], "pre")
              IN IF S.pend THEN Hold(S1) ELSE S1
EmitPost(S) == Visit([S EXCEPT !.chg = FALSE], "post")
RunLoop(S0) ==
  LET S == EmitPre(S0)
  IN IF S.stop THEN S
     ELSE LET t == Next1(S)
              S1 == SlotLoop(EmitPost([S EXCEPT !.now = t]), t)
          IN IF S1.stop THEN S1 ELSE RunLoop(S1)
EnterExecuting(S0) ==
  LET S == Visit([S0 EXCEPT !.st = "Executing"], "enter")
  IN IF S.st # "Executing" THEN S
     ELSE LET S1 == ImmLoop([S EXCEPT !.stop = FALSE])
          IN IF S1.stop THEN S1 ELSE RunLoop(S1)
\* run for a while: hold once all events of the last instant are executed
Run(S, a) ==
  IF S.st # "Standby" THEN S
  ELSE IF a.t < 0 THEN Ret(S, "InvalidEventTime", 0)
  ELSE LET S1 == Add(S, [kind |-> "sim", ep |-> "stopN", t |-> a.t, c |-> 0, r |-> 0])
           S2 == EnterExecuting([S1 EXCEPT !.enders = @ \cup {S1.last}])
           S3 == IF S1.last \in Ids(S2) THEN Without(Unpost(S2, S1.last), S1.last) ELSE S2
       IN Ret(S3, "ok", 0)
\* run until an event holds
RunFree(S, a) ==
  IF S.st # "Standby" THEN S
  ELSE LET S1 == Add(S, [kind |-> "sim", ep |-> "stopI", t |-> a.t, c |-> 0, r |-> 0])
       IN Ret(EnterExecuting([S1 EXCEPT !.enders = @ \cup {S1.last}]), "ok", 0)

-----------------------------------------------------------------------------
Obs(S) == [log |-> S.log, st |-> S.st, now |-> S.now, ep |-> Epoch(S), mi |-> Mission(S),
           ms |-> S.ms, next |-> Next1(S), cur |-> S.cur]
Fresh(S) == [S EXCEPT !.log = <<>>, !.res = [e |-> "ok", v |-> 0]]
Init == sch = Empty /\ out = [e |-> "ok", v |-> [id |-> 0, o |-> Obs(Empty)]]

Effect(S, o) ==
  CASE o.op = "run" -> Run(S, o)
    [] o.op = "runfree" -> RunFree(S, o)
    [] o.op = "script" -> [S EXCEPT !.scr[o.ep] = Append(@, o.acts)]
    [] o.op = "emit_pre" -> Ret(EmitPre(S), "ok", 0)
    [] o.op = "emit_post" -> Ret(EmitPost(S), "ok", 0)
    [] OTHER -> Basic(S, o)
OpLegal(S, o) == IF o.op \in {"set", "cycle", "repeat", "remove"} THEN Legal(S, o)
                 ELSE o.op = "runfree" => o.t >= 0
Do(o) ==
  /\ OpLegal(sch, o)
  /\ LET S == Effect(Fresh(sch), o)
     IN /\ sch' = Fresh(S)
        /\ out' = [e |-> S.res.e, v |-> [id |-> S.res.v, o |-> Obs(S)]]

-----------------------------------------------------------------------------
\* an event waits at one place at most, and waiting events exist
Waiting == /\ sch.post \cap sch.imm = {}
           /\ sch.post \cup sch.imm \subseteq Ids(sch)
\* every event is waiting between two calls: none is lost
NoneLost == Ids(sch) = sch.post \cup sch.imm
\* no event waits in the past
NotPast == \A i \in sch.post : sch.ev[i].next >= sch.now
Idle == sch.cur = -1 /\ sch.stop /\ sch.st # "Executing" /\ (sch.pend => sch.st = "Aborting")
CyclicPositive == \A i \in Ids(sch) : sch.ev[i].rep # 0 => sch.ev[i].cyc > 0
Fresher == \A i \in Ids(sch) : i <= sch.last
TimeForward == [][sch'.now >= sch.now]_vars
\* within a run the log is in order of time
LogOrdered == [][LET L == out'.v.o.log IN
                 \A i \in 1..Len(L) - 1 : L[i].now <= L[i + 1].now]_vars
\* a run without scripts executes each event at each of its times, no other
Visits(L, id) == SelectSeq(L, LAMBDA x : x.id = id)
ExactRun(S, t, L) ==
  (S.st = "Standby" /\ t >= 0 /\ (\A s \in Slots : S.scr[s] = <<>>) /\ ~S.pend /\
   \A i \in Ids(S) : S.ev[i].kind = "sim" /\ i \notin S.enders) =>
  \A i \in Ids(S) :
    LET e == S.ev[i]
        end == S.now + t
        first == IF i \in S.imm THEN S.now ELSE e.next
        times == {n \in first..end : n = first \/
                    (e.cyc > 0 /\ (n - first) % e.cyc = 0 /\
                     (e.rep < 0 \/ (n - first) \div e.cyc <= e.rep))}
        V == Visits(L, i)
    IN /\ Len(V) = Cardinality(times)
       /\ {V[k].now : k \in 1..Len(V)} = times
       /\ \A k \in 1..Len(V) : V[k].k = e.ep
=============================================================================
