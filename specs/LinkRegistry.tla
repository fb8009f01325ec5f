---------------------------- MODULE LinkRegistry ----------------------------
(* The link registry counts the links from a source to a target component, as  *)
(* told, and can ask the sources that support it to remove their links.        *)
(*   cnt    number of links per source and target                              *)
(*   order  per target, the sources that link to it, by their first link       *)
(*   scr    calls a source makes when it is asked to remove its links          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES lr, out
vars == <<lr, out>>
CONSTANTS Sources, Targets
\* sources that can be asked to remove their links
Linking == Sources \ {"p"}
\* two of them have the same name
Name(s) == IF s = "a2" THEN "a1" ELSE s
Empty == [cnt |-> [s \in Sources |-> [t \in Targets |-> 0]],
          order |-> [t \in Targets |-> <<>>],
          scr |-> [s \in Linking |-> <<>>], log |-> <<>>, res |-> [b |-> FALSE]]
Ret(S, b) == [S EXCEPT !.res = [b |-> b]]
Del(q, x) == SelectSeq(q, LAMBDA y : y # x)

Add(S, s, t) ==
  Ret([S EXCEPT !.cnt[s][t] = @ + 1,
                !.order[t] = IF S.cnt[s][t] = 0 THEN Append(@, s) ELSE @], TRUE)
Remove(S, s, t) ==
  IF S.cnt[s][t] = 0 THEN Ret(S, FALSE)
  ELSE Ret([S EXCEPT !.cnt[s][t] = @ - 1,
                     !.order[t] = IF S.cnt[s][t] = 1 THEN Del(@, s) ELSE @], TRUE)
CanRemove(S, t) == \A i \in 1..Len(S.order[t]) : S.order[t][i] \in Linking

RECURSIVE Ask(_, _, _), Acts(_, _)
\* the sources at the time of the call are asked, each once
Ask(S, q, t) ==
  IF q = <<>> THEN S
  ELSE LET s == Head(q)
           S1 == [S EXCEPT !.log = Append(@, [k |-> "asked", s |-> s, t |-> t])]
       IN Ask(IF s \notin Linking THEN S
              ELSE IF S.scr[s] = <<>> THEN S1
              ELSE Acts([S1 EXCEPT !.scr[s] = Tail(@)], Head(S.scr[s])), Tail(q), t)
Basic(S, a) ==
  CASE a.op = "add" -> Add(S, a.s, a.t)
    [] a.op = "remove" -> Remove(S, a.s, a.t)
    [] a.op = "can" -> Ret(S, CanRemove(S, a.t))
    [] a.op = "ask" -> Ret(Ask(S, S.order[a.t], a.t), TRUE)
    [] a.op = "script" -> Ret([S EXCEPT !.scr[a.s] = Append(@, a.acts)], TRUE)
Acts(S, as) ==
  IF as = <<>> THEN S
  ELSE LET S1 == Basic(S, Head(as))
       IN Acts([S1 EXCEPT !.log = Append(@, [k |-> IF S1.res.b THEN "yes" ELSE "no",
                                              s |-> Head(as).op, t |-> Head(as).t])],
               Tail(as))

First(q, n) == LET f == SelectSeq(q, LAMBDA x : Name(x) = n)
               IN IF f = <<>> THEN "none" ELSE f[1]
Obs(S) == [b |-> S.res.b, log |-> S.log, cnt |-> S.cnt, src |-> S.order,
           first |-> [t \in Targets |-> First(S.order[t], "a1")]]
Fresh(S) == [S EXCEPT !.log = <<>>, !.res = [b |-> FALSE]]
Init == lr = Empty /\ out = [e |-> "ok", v |-> Obs(Empty)]
Race(o) == out' = [e |-> "ok", v |-> [ok |-> TRUE]] /\ UNCHANGED lr
Do(o) == IF o.op = "race" THEN Race(o)
         ELSE LET S == Basic(lr, o)
              IN lr' = Fresh(S) /\ out' = [e |-> "ok", v |-> Obs(S)]

-----------------------------------------------------------------------------
Range(q) == {q[i] : i \in 1..Len(q)}
NotNegative == \A s \in Sources, t \in Targets : lr.cnt[s][t] >= 0
\* the sources of a target are those with a link, each once
Listed == \A t \in Targets : /\ Range(lr.order[t]) = {s \in Sources : lr.cnt[s][t] > 0}
                             /\ Len(lr.order[t]) = Cardinality(Range(lr.order[t]))
\* a call about one target leaves the others alone, unless a source is asked
Others == [][lr.scr = Empty.scr =>
             Cardinality({t \in Targets : lr'.order[t] # lr.order[t]}) <= 1]_vars
=============================================================================
