------------------------------- MODULE Fields -------------------------------
(* The fields of components, their values and the data flow between them.      *)
(* A field is simple, an array of simple values, an array of fields or a       *)
(* structure.  Its leaves hold the values; the units of data flow are simple   *)
(* fields and arrays of simple values.                                         *)
(*   val     value of each leaf                                                *)
(*   forced  of each leaf                                                      *)
(*   conn    [unit -> targets in the order of connection]                      *)
(*   comp    pairs of composed fields that are connected                       *)
(*   links   [output published by its address -> targets]                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES fl, out
vars == <<fl, out>>

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
-----------------------------------------------------------------------------
(* The fields.  x: a field of the SDK, forwards what is assigned to it;        *)
(* p: published by its address, only sends when pushed                         *)
Fam == {"x", "p"}
\* in, out, fo: input, output, forcible
A0(x, i, o, f) == [fam |-> x, in |-> i, out |-> o, fo |-> f]
Leafy(n, ty, a) == n :> [k |-> "s", shape |-> <<ty>>, leaves |-> <<n>>, parts |-> <<>>,
                         units |-> <<n>>, fam |-> a.fam, in |-> a.in, out |-> a.out, fo |-> a.fo]
Ix(n, i) == n \o (IF i = 1 THEN "[0]" ELSE "[1]")
\* array of two simple values
SA(n, ty, a) == n :> [k |-> "sa", shape |-> <<"sa", ty>>, leaves |-> <<Ix(n, 1), Ix(n, 2)>>,
                      parts |-> <<>>, units |-> <<n>>, fam |-> a.fam, in |-> a.in, out |-> a.out,
                      fo |-> FALSE]
Composed(n, kind, parts, ents, a) ==
  LET e == [i \in 1..Len(parts) |-> ents[parts[i]]]
  IN ents @@ (n :> [k |-> kind, shape |-> <<kind>> \o Cat([i \in 1..Len(parts) |-> e[i].shape]),
                    leaves |-> Cat([i \in 1..Len(parts) |-> e[i].leaves]), parts |-> parts,
                    units |-> Cat([i \in 1..Len(parts) |-> e[i].units]),
                    fam |-> a.fam, in |-> a.in, out |-> a.out, fo |-> FALSE])
\* array of two simple fields
Arr(n, ty, a) == Composed(n, "a", <<Ix(n, 1), Ix(n, 2)>>,
                          Leafy(Ix(n, 1), ty, a) @@ Leafy(Ix(n, 2), ty, a), a)
\* a structure of p and an array q of two; only the members of a structure
\* published by its address are inputs or outputs themselves
Member(a) == IF a.fam = "p" THEN a ELSE [a EXCEPT !.in = FALSE, !.out = FALSE]
St(n, ty, a) == Composed(n, "st", <<n \o ".p", n \o ".q">>,
                         Leafy(n \o ".p", ty, Member(a)) @@ SA(n \o ".q", "i", Member(a)), a)
\* array of two structures
ArrSt(n, a) == Composed(n, "a", <<Ix(n, 1), Ix(n, 2)>>,
                        St(Ix(n, 1), "i", a) @@ St(Ix(n, 2), "i", a), a)
Xo == A0("x", FALSE, TRUE, FALSE)
Xi == A0("x", TRUE, FALSE, FALSE)
Xio == A0("x", TRUE, TRUE, FALSE)
Po == A0("p", FALSE, TRUE, FALSE)
Pi == A0("p", TRUE, FALSE, FALSE)
Fo(a) == [a EXCEPT !.fo = TRUE]
\* component A
OfA ==
  Leafy("A.o", "i", Xo) @@ Leafy("A.of", "i", Fo(Xo)) @@ Leafy("A.od", "d", Xo) @@
  SA("A.so", "i", Xo) @@ SA("A.sd", "d", Xo) @@ Arr("A.ao", "i", Xo) @@ St("A.to", "i", Xo) @@
  ArrSt("A.ro", Xo) @@ Leafy("A.i", "i", Xi)
\* component B
OfB ==
  Leafy("B.i", "i", Xi) @@ Leafy("B.io", "i", Xio) @@ Leafy("B.if", "i", Fo(Xi)) @@
  Leafy("B.x", "i", A0("x", FALSE, FALSE, FALSE)) @@ Leafy("B.id", "d", Xi) @@
  SA("B.si", "i", Xi) @@ SA("B.sio", "i", Xio) @@ SA("B.sd", "d", Xi) @@
  Arr("B.ai", "i", Xi) @@ Arr("B.af", "i", Fo(Xio)) @@ Arr("B.ad", "d", Xi) @@
  St("B.ti", "i", Xi) @@ St("B.tf", "i", Xio) @@ St("B.td", "d", Xi) @@ ArrSt("B.ri", Xio)
\* component C, published by address
OfC ==
  Leafy("C.o", "i", Po) @@ Leafy("C.i", "i", Pi) @@ SA("C.so", "i", Po) @@ SA("C.si", "i", Pi) @@
  SA("C.lo", "i", Po) @@ SA("C.li", "i", Pi) @@ SA("C.ld", "d", Pi) @@ Arr("C.ao", "i", Po) @@
  Arr("C.ai", "i", Pi) @@ St("C.to", "i", Po) @@ St("C.ti", "i", Pi) @@
  SA("C.en", "e", A0("p", FALSE, FALSE, FALSE)) @@ Leafy("C.e", "e", A0("p", FALSE, FALSE, FALSE))
\* component D
OfD ==
  Leafy("D.i", "i", Xi) @@ Leafy("D.io", "i", Xio) @@ SA("D.si", "i", Xi) @@ Arr("D.ai", "i", Xi) @@
  St("D.ti", "i", Xi)
Catalog == OfA @@ OfB @@ OfC @@ OfD
Of == [A |-> DOMAIN OfA, B |-> DOMAIN OfB, C |-> DOMAIN OfC, D |-> DOMAIN OfD]
Names == DOMAIN Catalog
Field(n) == Catalog[n]
Leaves == UNION {{Field(n).leaves[i] : i \in 1..Len(Field(n).leaves)} : n \in Names}
Forcible == {n \in Names : Field(n).k = "s" /\ Field(n).fo}
UnitNames == {n \in Names : Field(n).k \in {"s", "sa"}}
Unit == [l \in Leaves |-> CHOOSE u \in UnitNames : \E i \in 1..Len(Field(u).leaves) : Field(u).leaves[i] = l]
At(u, l) == CHOOSE i \in 1..Len(Field(u).leaves) : Field(u).leaves[i] = l
InSeq(s, x) == \E i \in 1..Len(s) : s[i] = x
RECURSIVE Levels(_)   \* a composed field and those it consists of
Levels(n) == IF Field(n).k \in {"s", "sa"} THEN <<>>
             ELSE <<n>> \o Cat([i \in 1..Len(Field(n).parts) |-> Levels(Field(n).parts[i])])
-----------------------------------------------------------------------------
(* Values                                                                      *)
RECURSIVE Put(_, _, _), PutTo(_, _, _, _)
\* assigns a leaf
Put(S, l, v) ==
  IF l \in Forcible /\ S.forced[l] THEN S
  ELSE LET u == Unit[l] T == [S EXCEPT !.val[l] = v]
       IN IF Field(u).fam = "x" THEN PutTo(T, S.conn[u], At(u, l), v) ELSE T
PutTo(S, ts, i, v) == IF ts = <<>> THEN S
                      ELSE PutTo(Put(S, Field(Head(ts)).leaves[i], v), Tail(ts), i, v)
RECURSIVE PutAll(_, _, _)   \* assigns leaves in turn
PutAll(S, ls, vs) == IF ls = <<>> THEN S ELSE PutAll(Put(S, Head(ls), Head(vs)), Tail(ls), Tail(vs))
RECURSIVE Copy(_, _, _), SendUnits(_, _)
Copy(S, from, to) == IF from = <<>> THEN S
                     ELSE Copy(Put(S, Head(to), S.val[Head(from)]), Tail(from), Tail(to))
\* every unit sends its values again
SendUnits(S, us) ==
  IF us = <<>> THEN S
  ELSE LET ls == Field(Head(us)).leaves
           RECURSIVE Send(_, _)
           Send(Q, i) == IF i > Len(ls) THEN Q
                         ELSE Send(PutTo(Q, Q.conn[Head(us)], i, Q.val[ls[i]]), i + 1)
       IN SendUnits(Send(S, 1), Tail(us))
RECURSIVE CopyTo(_, _, _)
CopyTo(S, n, ts) == IF ts = <<>> THEN S ELSE CopyTo(Copy(S, Field(n).leaves, Field(Head(ts)).leaves), n, Tail(ts))
-----------------------------------------------------------------------------
(* Connections                                                                 *)
Without(s, X) == SelectSeq(s, LAMBDA t : t \notin X)
Valid(a, b) == Field(a).out /\ Field(b).in /\ a # b /\ Field(a).shape = Field(b).shape
\* the parts of a and b are connected too, in parallel
Taken(S, a, b) ==
  IF Field(a).fam = "p" THEN InSeq(S.links[a], b)
  ELSE \/ \E i \in 1..Len(Levels(a)) : Field(Levels(a)[i]).out /\ <<Levels(a)[i], Levels(b)[i]>> \in S.comp
       \/ \E i \in 1..Len(Field(a).units) : InSeq(S.conn[Field(a).units[i]], Field(b).units[i])
RECURSIVE JoinUnits(_, _, _)   \* each connection sends the values
JoinUnits(S, us, ws) ==
  IF us = <<>> THEN S
  ELSE LET T == [S EXCEPT !.conn[Head(us)] = Append(@, Head(ws))]
       IN JoinUnits(Copy(T, Field(Head(us)).leaves, Field(Head(ws)).leaves), Tail(us), Tail(ws))
Join(S, a, b) ==
  IF Field(a).fam = "p" THEN Copy([S EXCEPT !.links[a] = Append(@, b)], Field(a).leaves, Field(b).leaves)
  ELSE JoinUnits([S EXCEPT !.comp = @ \cup {<<Levels(a)[i], Levels(b)[i]>> :
                                            i \in {j \in 1..Len(Levels(a)) : Field(Levels(a)[j]).out}}],
                 Field(a).units, Field(b).units)
RECURSIVE CutUnits(_, _, _)
CutUnits(S, us, ws) == IF us = <<>> THEN S
                       ELSE CutUnits([S EXCEPT !.conn[Head(us)] = Without(@, {Head(ws)})], Tail(us), Tail(ws))
Part(S, a, b) ==
  IF Field(a).shape # Field(b).shape THEN S
  ELSE IF Field(a).k \in {"s", "sa"} THEN CutUnits(S, <<a>>, <<b>>)
  ELSE IF <<a, b>> \notin S.comp THEN S
  ELSE CutUnits([S EXCEPT !.comp = @ \ {<<Levels(a)[i], Levels(b)[i]>> : i \in 1..Len(Levels(a))}],
                Field(a).units, Field(b).units)
\* all connections from the fields X to the fields Y
Unlink(S, X, Y) ==
  [S EXCEPT !.conn = [u \in DOMAIN S.conn |-> IF u \in X THEN Without(S.conn[u], Y) ELSE S.conn[u]],
            !.comp = {p \in S.comp : ~(p[1] \in X /\ p[2] \in Y)},
            !.links = [u \in DOMAIN S.links |-> IF u \in X THEN Without(S.links[u], Y) ELSE S.links[u]]]
-----------------------------------------------------------------------------
Empty == [val |-> [l \in Leaves |-> 0], forced |-> [l \in Forcible |-> FALSE],
          conn |-> [u \in {n \in UnitNames : Field(n).fam = "x"} |-> <<>>], comp |-> {},
          links |-> [n \in {m \in Names : Field(m).fam = "p" /\ Field(m).out} |-> <<>>]]
R(S, e) == [s |-> S, e |-> e]
Literals == 0..5
Basic(S, o) ==
  CASE o.op = "set" ->      \* of one leaf, in any of the ways there are
         IF Field(Unit[o.l]).shape \in {<<"e">>, <<"sa", "e">>} /\ o.v \notin Literals
         THEN R(S, IF Field(Unit[o.l]).k = "s" THEN "InvalidFieldValue" ELSE "InvalidArrayValue")
         ELSE R(Put(S, o.l, o.v), "ok")
    [] o.op = "setAll" ->   \* all the leaves of a field, in order
         R(PutAll(S, Field(o.f).leaves, o.vs), "ok")
    [] o.op = "wrong" ->    \* a value of no use for the type
         R(S, "refused")
    [] o.op = "size" -> R(S, "InvalidArraySize")     \* values of a wrong number
    [] o.op = "index" -> R(S, "InvalidArrayIndex")   \* an item that is not there
    [] o.op = "force" -> R([Put([S EXCEPT !.forced[o.l] = FALSE], o.l, o.v) EXCEPT !.forced[o.l] = TRUE], "ok")
    [] o.op = "forceWrong" -> R(S, "refused")
    [] o.op = "unforce" -> R([S EXCEPT !.forced[o.l] = FALSE], "ok")
    [] o.op = "freeze" -> R([S EXCEPT !.forced[o.l] = TRUE], "ok")
    [] o.op = "connect" -> IF ~Valid(o.a, o.b) THEN R(S, "InvalidTarget")
                           ELSE IF Taken(S, o.a, o.b) THEN R(S, "FieldAlreadyConnected")
                           ELSE R(Join(S, o.a, o.b), "ok")
    [] o.op = "disconnect" -> R(Part(S, o.a, o.b), "ok")
    [] o.op = "push" -> R(IF Field(o.a).fam = "p" THEN CopyTo(S, o.a, S.links[o.a]) ELSE SendUnits(S, Field(o.a).units), "ok")
    [] o.op = "unlink" -> R(Unlink(S, Of[o.x], Of[o.y]), "ok")
Init == fl = Empty /\ out = [e |-> "ok", v |-> Empty.val, f |-> Empty.forced]
Do(o) == LET r == Basic(fl, o) IN fl' = r.s /\ out' = [e |-> r.e, v |-> r.s.val, f |-> r.s.forced]

-----------------------------------------------------------------------------
\* what is assigned reaches the inputs it is connected to, unless they are forced
Flows == \A u \in DOMAIN fl.conn : \A t \in {fl.conn[u][i] : i \in 1..Len(fl.conn[u])} :
           Field(u).shape = Field(t).shape /\ Cardinality({i \in 1..Len(fl.conn[u]) : fl.conn[u][i] = t}) = 1
\* a connection of composed fields is one of their parts
Whole == \A p \in fl.comp : Field(p[1]).shape = Field(p[2]).shape
=============================================================================
