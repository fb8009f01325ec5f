---------------------------- MODULE EventManager ----------------------------
(* The event manager: names of events have identifiers, entry points subscribe *)
(* to events and are called when these are emitted; a call may make further    *)
(* calls (its script) or fail, which aborts the simulation.                    *)
(*   names  names given so far, in order, the predefined ones first: the       *)
(*          position is the identifier                                         *)
(*   subs   entry points subscribed to each event, in order                    *)
(*   st     state of the simulator, log calls made meanwhile                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES em, out
vars == <<em, out>>
CONSTANT Eps
Predefined == <<"SMP_LeaveConnecting", "SMP_EnterInitialising", "SMP_LeaveInitialising",
                "SMP_EnterStandby", "SMP_LeaveStandby", "SMP_EnterExecuting",
                "SMP_LeaveExecuting", "SMP_EnterStoring", "SMP_LeaveStoring",
                "SMP_EnterRestoring", "SMP_LeaveRestoring", "SMP_EnterExiting",
                "SMP_EnterAborting", "SMP_EpochTimeChanged", "SMP_MissionTimeChanged",
                "SMP_EnterReconnecting", "SMP_LeaveReconnecting", "SMP_PreSimTimeChange",
                "SMP_PostSimTimeChange">>
EnterAborting == 13
Empty == [names |-> Predefined, subs |-> [i \in 1..Len(Predefined) |-> <<>>],
          scr |-> [e \in Eps |-> <<>>], st |-> "Standby", log |-> <<>>,
          res |-> [e |-> "ok", v |-> 0]]
Ret(S, e, v) == [S EXCEPT !.res = [e |-> e, v |-> v]]
In(x, q) == \E i \in 1..Len(q) : q[i] = x
Index(x, q) == CHOOSE i \in 1..Len(q) : q[i] = x
Del(q, x) == SelectSeq(q, LAMBDA y : y # x)

Query(S, n) ==
  IF n = "" THEN Ret(S, "InvalidEventName", 0)
  ELSE IF In(n, S.names) THEN Ret(S, "ok", Index(n, S.names))
  ELSE Ret([S EXCEPT !.names = Append(@, n), !.subs = Append(@, <<>>)], "ok", Len(S.names) + 1)
Subscribe(S, i, e) ==
  IF i \notin 1..Len(S.names) THEN Ret(S, "InvalidEventId", 0)
  ELSE IF In(e, S.subs[i]) THEN Ret(S, "EntryPointAlreadySubscribed", 0)
  ELSE Ret([S EXCEPT !.subs[i] = Append(@, e)], "ok", 0)
Unsubscribe(S, i, e) ==
  IF i \notin 1..Len(S.names) THEN Ret(S, "InvalidEventId", 0)
  ELSE IF ~In(e, S.subs[i]) THEN Ret(S, "EntryPointNotSubscribed", 0)
  ELSE Ret([S EXCEPT !.subs[i] = Del(@, e)], "ok", 0)

RECURSIVE Emit(_, _), Call(_, _), Execute(_, _), Acts(_, _), Abort(_)
\* the subscribers at the time of the emission are called
Emit(S, i) == IF i \notin 1..Len(S.names) THEN Ret(S, "InvalidEventId", 0)
              ELSE Ret(Call([S EXCEPT !.log = Append(@, [k |-> "event", n |-> S.names[i]])],
                            S.subs[i]), "ok", 0)
Call(S, q) == IF q = <<>> THEN S ELSE Call(Execute(S, Head(q)), Tail(q))
Execute(S, e) ==
  LET S1 == [S EXCEPT !.log = Append(@, [k |-> "call", n |-> e])]
  IN IF S.scr[e] = <<>> THEN S1
     ELSE Acts([S1 EXCEPT !.scr[e] = Tail(@)], Head(S.scr[e]))
Basic(S, a) ==
  CASE a.op = "query" -> Query(S, a.n)
    [] a.op = "sub" -> Subscribe(S, a.id, a.ep)
    [] a.op = "unsub" -> Unsubscribe(S, a.id, a.ep)
    [] a.op = "emit" -> Emit(S, a.id)
    [] a.op = "script" -> Ret([S EXCEPT !.scr[a.ep] = Append(@, a.acts)], "ok", 0)
Acts(S, as) ==
  IF as = <<>> THEN S
  ELSE IF Head(as).op = "throw" THEN Abort(S)
  ELSE LET S1 == Basic(S, Head(as))
       IN Acts([S1 EXCEPT !.log = Append(@, [k |-> S1.res.e, n |-> S1.res.v])], Tail(as))
Abort(S) == IF S.st = "Aborting" THEN S
            ELSE Emit([S EXCEPT !.st = "Aborting"], EnterAborting)

Obs(S) == [v |-> S.res.v, log |-> S.log, st |-> S.st]
Fresh(S) == [S EXCEPT !.log = <<>>, !.res = [e |-> "ok", v |-> 0]]
Init == em = Empty /\ out = [e |-> "ok", v |-> Obs(Empty)]
\* threads that query names and subscribe at once behave as one after the other
Race(o) == /\ out' = [e |-> "ok", v |-> [ok |-> TRUE]]
           /\ UNCHANGED em
Do(o) == IF o.op = "race" THEN Race(o)
         ELSE LET S == Basic(em, o)
              IN em' = Fresh(S) /\ out' = [e |-> S.res.e, v |-> Obs(S)]

-----------------------------------------------------------------------------
Once(q) == \A i, j \in 1..Len(q) : q[i] = q[j] => i = j
NamesOnce == Once(em.names)
SubsOnce == \A i \in 1..Len(em.subs) : Once(em.subs[i])
Lengths == Len(em.names) = Len(em.subs)
\* identifiers never change
Stable == [][\A i \in 1..Len(em.names) : em'.names[i] = em.names[i]]_vars
AbortIsFinal == [][em.st = "Aborting" => em'.st = "Aborting"]_vars
\* subscriptions to an event change one at a time and keep their order
Ordered == [][em.scr = Empty.scr => \A i \in 1..Len(em.subs) :
               \/ em'.subs[i] = em.subs[i]
               \/ \E e \in Eps : em'.subs[i] = Append(em.subs[i], e)
               \/ \E e \in Eps : em'.subs[i] = Del(em.subs[i], e)]_vars
=============================================================================
