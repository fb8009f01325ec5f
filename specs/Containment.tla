---------------------------- MODULE Containment ----------------------------
(* A composite that contains components and has references to components.      *)
(*   ks    components that exist: [n name, k kind, p parent, st state]         *)
(*   ct    the components in each container, in order                          *)
(*   rf    the components in each reference, in order, possibly repeated       *)
(*   pub   whether the composite has published its fields and operations       *)
(*   scr   calls made by the Disconnect hook of a component                    *)
(*   busy  components that are being disconnected                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES cc, out
vars == <<cc, out>>
CONSTANT Slots
Containers == {"c1", "c2", "c3"}
References == {"r1", "r2"}
Many == 1000000
Lower == [c1 |-> 0, c2 |-> 1, c3 |-> 0, r1 |-> 1, r2 |-> 0]
Upper == [c1 |-> Many, c2 |-> 2, c3 |-> 3, r1 |-> 3, r2 |-> Many]
\* kinds of components accepted
Accepts == [c1 |-> {"model", "special"}, c2 |-> {"special"},
            c3 |-> {"model", "special", "service"},
            r1 |-> {"model", "special"}, r2 |-> {"special"}]
None == [n |-> "", k |-> "none", p |-> "none", st |-> "none"]
Empty == [ks |-> [c \in Slots |-> None], ct |-> [x \in Containers |-> <<>>],
          rf |-> [x \in References |-> <<>>], pub |-> FALSE,
          scr |-> [c \in Slots |-> <<>>], busy |-> {}, dead |-> FALSE,
          log |-> <<>>, res |-> "ok"]
Ret(S, e) == [S EXCEPT !.res = e]
Del(q, x) == SelectSeq(q, LAMBDA y : y # x)
In(x, q) == \E i \in 1..Len(q) : q[i] = x
RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
FirstIndex(x, q) == CHOOSE i \in 1..Len(q) : q[i] = x /\ \A j \in 1..i - 1 : q[j] # x
Exists(S, c) == c \in Slots /\ S.ks[c].k # "none"
Contained(S, c) == \E x \in Containers : In(c, S.ct[x])
\* the names below the composite: entry point, event source, event sink and
\* failure, once published field, operation and property, and the components
Taken(S) == {"ep", "src", "snk", "fail"} \cup
            (IF S.pub THEN {"fld", "op", "prop"} ELSE {}) \cup
            {S.ks[c].n : c \in {d \in Slots : Exists(S, d) /\ Contained(S, d)}}

Create(S, c, n, k, p) ==
  IF Exists(S, c) THEN Ret(S, "none")
  ELSE Ret([S EXCEPT !.ks[c] = [n |-> n, k |-> k, p |-> p, st |-> "Created"],
                     !.scr[c] = <<>>], "ok")
Add(S, x, c) ==
  IF c # "null" /\ ~Exists(S, c) THEN Ret(S, "none")
  ELSE IF c = "null" \/ S.ks[c].k \notin Accepts[x] THEN Ret(S, "InvalidObjectType")
  ELSE IF Len(S.ct[x]) >= Upper[x] THEN Ret(S, "ContainerFull")
  ELSE IF S.ks[c].n \in Taken(S) THEN Ret(S, "DuplicateName")
  ELSE IF S.ks[c].p # "r" THEN Ret(S, "InvalidParent")
  ELSE Ret([S EXCEPT !.ct[x] = Append(@, c)], "ok")
Unlink(S, c) == [S EXCEPT !.rf = [x \in References |-> Del(@[x], c)]]

RECURSIVE Disconnect(_, _), Acts(_, _), Delete(_, _, _)
\* the links to a component are removed before it is deleted
Delete(S, x, c) ==
  IF c # "null" /\ (~Exists(S, c) \/ c \in S.busy) THEN Ret(S, "none")
  ELSE LET S1 == IF c = "null" THEN S ELSE Unlink(S, c)
  IN IF c = "null" \/ ~In(c, S.ct[x]) THEN Ret(S1, "NotContained")
     ELSE IF Len(S.ct[x]) <= Lower[x] THEN Ret(S1, "CannotDelete")
     ELSE LET S2 == IF S1.ks[c].st = "Connected" THEN Disconnect(S1, c) ELSE Ret(S1, "ok")
          IN IF S2.res # "ok" THEN S2
             ELSE Ret(Unlink([S2 EXCEPT !.ct[x] = Del(@, c), !.ks[c] = None,
                                        !.log = Append(@, [k |-> "deleted", c |-> c])], c), "ok")
Disconnect(S, c) ==
  LET S1 == [S EXCEPT !.log = Append(@, [k |-> "hook", c |-> c]), !.busy = @ \cup {c}]
      S2 == IF S.scr[c] = <<>> THEN Ret(S1, "ok")
            ELSE Acts([S1 EXCEPT !.scr[c] = Tail(@)], Head(S.scr[c]))
  IN [S2 EXCEPT !.busy = S.busy,
                !.ks[c].st = IF S2.res = "ok" THEN "Disconnected" ELSE @]
Basic(S, a) ==
  CASE a.op = "create" -> Create(S, a.c, a.n, a.k, a.p)
    [] a.op = "add" -> Add(S, a.x, a.c)
    [] a.op = "del" -> Delete(S, a.x, a.c)
    [] a.op = "ref" ->
         IF a.c # "null" /\ ~Exists(S, a.c) THEN Ret(S, "none")
         ELSE IF Len(S.rf[a.x]) >= Upper[a.x] THEN Ret(S, "ReferenceFull")
         ELSE IF a.c = "null" \/ S.ks[a.c].k \notin Accepts[a.x] THEN Ret(S, "InvalidObjectType")
         ELSE Ret([S EXCEPT !.rf[a.x] = Append(@, a.c)], "ok")
    [] a.op = "unref" ->
         IF a.c # "null" /\ ~Exists(S, a.c) THEN Ret(S, "none")
         ELSE IF ~In(a.c, S.rf[a.x]) THEN Ret(S, "NotReferenced")
         ELSE IF Len(S.rf[a.x]) <= Lower[a.x] THEN Ret(S, "CannotRemove")
         ELSE Ret([S EXCEPT !.rf[a.x] = RemoveAt(@, FirstIndex(a.c, @))], "ok")
    [] a.op = "unlink" -> IF ~Exists(S, a.c) THEN Ret(S, "none") ELSE Ret(Unlink(S, a.c), "ok")
    [] a.op = "connect" ->
         IF ~Exists(S, a.c) \/ S.ks[a.c].st # "Created" THEN Ret(S, "none")
         ELSE Ret([S EXCEPT !.ks[a.c].st = "Connected"], "ok")
    [] a.op = "script" ->
         IF ~Exists(S, a.c) THEN Ret(S, "none")
         ELSE Ret([S EXCEPT !.scr[a.c] = Append(@, a.acts)], "ok")
    [] a.op = "publish" -> Ret([S EXCEPT !.pub = TRUE], "ok")
    [] a.op = "destroy" -> \* each container from the last component to the first
         LET q == S.ct["c1"] \o S.ct["c2"] \o S.ct["c3"]
             n == Len(q)
         IN Ret([S EXCEPT !.dead = TRUE, !.ct = Empty.ct, !.rf = Empty.rf,
                          !.ks = [c \in Slots |-> IF In(c, q) THEN None ELSE S.ks[c]],
                          !.log = @ \o [i \in 1..n |-> [k |-> "deleted", c |-> q[n + 1 - i]]]],
                "ok")
\* an exception ends the hook
Acts(S, as) ==
  IF as = <<>> THEN Ret(S, "ok")
  ELSE IF Head(as).op = "throw" THEN Ret(S, "std:std::runtime_error")
  ELSE LET S1 == Basic(S, Head(as))
       IN Acts([S1 EXCEPT !.log = Append(@, [k |-> S1.res, c |-> "did"])], Tail(as))

Obs(S) == [log |-> S.log, ct |-> S.ct, rf |-> S.rf,
           st |-> [c \in Slots |-> S.ks[c].st]]
Fresh(S) == [S EXCEPT !.log = <<>>, !.res = "ok"]
Init == cc = Empty /\ out = [e |-> "ok", v |-> Obs(Empty)]
Do(o) == LET S == IF cc.dead THEN Ret(cc, "none") ELSE Basic(cc, o)
         IN cc' = Fresh(S) /\ out' = [e |-> S.res, v |-> Obs(S)]

-----------------------------------------------------------------------------
\* a component is in one container at most, once, and its name is unique there
OneOwner == \A c \in Slots :
  Cardinality({<<x, i>> \in Containers \X (1..Cardinality(Slots)) :
                i <= Len(cc.ct[x]) /\ cc.ct[x][i] = c}) <= 1
UniqueNames == \A c, d \in Slots :
  Contained(cc, c) /\ Contained(cc, d) /\ cc.ks[c].n = cc.ks[d].n => c = d
Bounded == /\ \A x \in Containers : Len(cc.ct[x]) <= Upper[x]
           /\ \A x \in References : Len(cc.rf[x]) <= Upper[x]
Typed == /\ \A x \in Containers : \A i \in 1..Len(cc.ct[x]) :
              cc.ks[cc.ct[x][i]].k \in Accepts[x] /\ cc.ks[cc.ct[x][i]].p = "r"
         /\ \A x \in References : \A i \in 1..Len(cc.rf[x]) :
              cc.ks[cc.rf[x][i]].k \in Accepts[x]
Calm == cc.busy = {}
=============================================================================
