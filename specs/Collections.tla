---------------------------- MODULE Collections ----------------------------
(* Collections of named objects, in order of insertion.                        *)
(*   c    the elements of each collection: "list" refuses equal names, "bag"   *)
(*        does not, "own" and "ownbag" own their elements, "over" shows those  *)
(*        of "list" followed by its own                                        *)
(*   alive  the elements that exist; nobody owns those that are in "loose"     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES co, out
vars == <<co, out>>
\* elements and their names; x* have no name
Name == [e1 |-> "a", e2 |-> "b", e3 |-> "a", e4 |-> "c", e5 |-> "b", e6 |-> "d", x1 |-> ""]
Elements == DOMAIN Name
Lists == {"list", "bag", "own", "ownbag", "over"}
Owners == {"own", "ownbag"}
Names == {"a", "b", "c", "d", "z"}
Empty == [c |-> [l \in Lists |-> <<>>], alive |-> Elements]
In(q, e) == \E i \in 1..Len(q) : q[i] = e
First(q, P(_)) == IF \E i \in 1..Len(q) : P(q[i])
                  THEN q[CHOOSE i \in 1..Len(q) : P(q[i]) /\ \A j \in 1..i - 1 : ~P(q[j])]
                  ELSE "null"
Without(q, e) == LET i == CHOOSE k \in 1..Len(q) : q[k] = e /\ \A j \in 1..k - 1 : q[j] # e
                 IN SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
All(S, l) == IF l = "over" THEN S.c["list"] \o S.c["over"] ELSE S.c[l]
Find(S, l, n) == First(All(S, l), LAMBDA e : Name[e] = n)
R(S, e, v) == [s |-> S, e |-> e, v |-> v]
Held(S, e) == \E l \in Lists : In(S.c[l], e)
Kill(S, E) == [S EXCEPT !.alive = @ \ E]
Basic(S, o) ==
  IF o.op \in {"add", "remove"} /\ o.e \notin S.alive THEN R(S, "none", 0)
  ELSE CASE o.op = "add" ->
         IF o.l \in Owners /\ (Held(S, o.e) \/ Name[o.e] = "") THEN R(S, "none", 0)
         ELSE IF Name[o.e] = "" THEN R(S, "InvalidObject", 0)
         ELSE IF o.l \notin {"bag", "ownbag"} /\ Find(S, o.l, Name[o.e]) # "null"
              THEN R(IF o.l = "own" THEN Kill(S, {o.e}) ELSE S, "DuplicateName", 0)
         ELSE R([S EXCEPT !.c[o.l] = Append(@, o.e)], "ok", 0)
    [] o.op = "remove" ->
         IF Name[o.e] = "" THEN (IF o.l \in Owners THEN R(S, "none", 0) ELSE R(S, "InvalidObject", 0))
         ELSE IF o.l \in Owners /\ \E m \in Lists \ {o.l} : In(S.c[m], o.e) THEN R(S, "none", 0)
         ELSE IF ~In(S.c[o.l], o.e) THEN R(S, "ok", 0)
         ELSE LET S1 == [S EXCEPT !.c[o.l] = Without(@, o.e)]
              IN R(IF o.l \in Owners THEN Kill(S1, {o.e}) ELSE S1, "ok", 1)
    [] o.op = "clear" ->
         LET E == {S.c[o.l][i] : i \in 1..Len(S.c[o.l])}
         IN IF o.l \in Owners /\ \E m \in Lists \ {o.l}, e \in E : In(S.c[m], e) THEN R(S, "none", 0)
            ELSE R(IF o.l \in Owners THEN Kill([S EXCEPT !.c[o.l] = <<>>], E)
                   ELSE [S EXCEPT !.c[o.l] = <<>>], "ok", 0)
Look(S) == [l \in Lists |-> [all |-> All(S, l), named |-> [n \in Names |-> Find(S, l, n)]]]
Obs(S) == [look |-> Look(S), alive |-> [e \in Elements |-> IF e \in S.alive THEN 1 ELSE 0]]
Init == co = Empty /\ out = [e |-> "ok", v |-> [r |-> 0, o |-> Obs(Empty)]]
Do(o) == LET r == Basic(co, o)
         IN co' = r.s /\ out' = [e |-> r.e, v |-> [r |-> r.v, o |-> Obs(r.s)]]
-----------------------------------------------------------------------------
Unique(q) == \A i, j \in 1..Len(q) : Name[q[i]] = Name[q[j]] => i = j
UniqueNames == Unique(co.c["list"]) /\ Unique(co.c["own"]) /\ Unique(co.c["over"])
Sane == \A l \in Lists : \A i \in 1..Len(co.c[l]) : co.c[l][i] \in co.alive
FoundByName == \A l \in Lists, n \in Names :
  (Find(co, l, n) = "null") = ~(\E i \in 1..Len(All(co, l)) : Name[All(co, l)[i]] = n)
=============================================================================
