----------------------------- MODULE Factories -----------------------------
(* Factories registered in a simulator and the instances they make.            *)
(*   facs   registered factories, in order: [n, u, k]                          *)
(*   insts  instances that are alive: set of [n, u] (n unique here)            *)
(* Kinds of factories: "right" makes instances of its uuid, "wrong" of         *)
(* another one, "throws" fails, "type2" makes another C++ type.                *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Names, Ids
VARIABLES facs, insts, out
vars == <<facs, insts, out>>
None == <<"none">>
Kinds == {"right", "wrong", "throws", "type2"}
Found(u) == {i \in 1..Len(facs) : facs[i].u = u}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
ByName(n) == {i \in 1..Len(facs) : facs[i].n = n}
Public == [i \in 1..2 * Len(facs) |-> IF i % 2 = 1 THEN facs[(i + 1) \div 2].n ELSE facs[i \div 2].u]
\* every outcome tells how many factories and instances are alive
Report(e, v) == out' = [e |-> e, v |-> v, facs |-> Len(facs'), insts |-> Cardinality(insts')]
Same == UNCHANGED <<facs, insts>>
Init == facs = <<>> /\ insts = {} /\ out = [e |-> "ok", v |-> <<>>, facs |-> 0, insts |-> 0]
TypeName(k) == IF k = "type2" THEN "Second<int>" ELSE "lib::First"
Register(o) ==
  /\ UNCHANGED insts
  /\ IF Found(o.u) # {}
     THEN UNCHANGED facs /\ Report("DuplicateUuid", <<facs[First(Found(o.u))].n, o.n>>)
     ELSE facs' = Append(facs, [n |-> o.n, u |-> o.u, k |-> o.k]) /\ Report("ok", <<>>)
Get(o) == Same /\ Report("ok", IF Found(o.u) = {} THEN None
                               ELSE LET f == facs[First(Found(o.u))] IN
                                    <<f.n, f.u, TypeName(f.k)>>)
AtName(o) == Same /\ Report("ok", IF ByName(o.n) = {} THEN None ELSE <<facs[First(ByName(o.n))].u>>)
AtIndex(o) == Same /\ Report("ok", IF o.i < Len(facs) THEN <<facs[o.i + 1].u>> ELSE None)
All(o) == Same /\ Report("ok", Public)
\* via the simulator or the factory itself; bad: the name is not valid
Create(o) ==
  IF Found(o.u) = {} THEN Same /\ Report("ok", None)
  ELSE LET f == facs[First(Found(o.u))] IN
       /\ UNCHANGED facs
       /\ CASE f.k = "throws" -> UNCHANGED insts /\ Report("Thrown", <<>>)
            [] f.k # "throws" /\ o.bad -> UNCHANGED insts /\ Report("InvalidObjectName", <<>>)
            [] f.k = "wrong" /\ ~o.bad -> UNCHANGED insts /\ Report("InvalidFactory", <<>>)
            [] OTHER -> /\ insts' = insts \cup {[n |-> o.n, u |-> o.u]}
                        /\ Report("ok", <<o.n, o.d, o.u, o.p, "sim">>)
Delete(o) == /\ \E x \in insts : x.n = o.n
             /\ insts' = {x \in insts : x.n # o.n} /\ UNCHANGED facs
             /\ Report("ok", <<>>)
\* the simulator goes, its factories with it; the instances are their user's
Drop(o) == facs' = <<>> /\ insts' = {} /\ Report("ok", <<>>)
Legal(o) == CASE o.op = "create" -> o.bad \/ \A x \in insts : x.n # o.n
              [] o.op = "delete" -> (\E x \in insts : x.n = o.n) /\ Found(o.f) # {}
              [] OTHER -> TRUE
Do(o) == CASE o.op = "register" -> Register(o)
           [] o.op = "get" -> Get(o)
           [] o.op = "atn" -> AtName(o)
           [] o.op = "ati" -> AtIndex(o)
           [] o.op = "all" -> All(o)
           [] o.op = "create" -> Create(o)
           [] o.op = "delete" -> Delete(o)
           [] o.op = "drop" -> Drop(o)
Unique == \A i, j \in 1..Len(facs) : facs[i].u = facs[j].u => i = j
=============================================================================
