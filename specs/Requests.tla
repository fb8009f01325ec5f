------------------------------ MODULE Requests ------------------------------
(* Operations and properties of a component, requests made for them and their  *)
(* invocation.                                                                 *)
(*   ops    published operations: parameters ps and return r, of [n, t, dir]   *)
(*   props  published properties: type t and access a (0 RW, 1 R, 2 W)         *)
(*   reqs   requests: kind (none, op, get, set, custom), n the operation or    *)
(*          property, ps the parameters [n, t, v], ret the value returned      *)
(* A value is [k, x]: its kind and a number (floats in halves, strings by      *)
(* length, -1 for null). An outcome is the set of acceptable [e, v].           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES ops, props, reqs, out
vars == <<ops, props, reqs, out>>
Slots == 1..4
-----------------------------------------------------------------------------
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Nat2(_)
Nat2(n) == IF n < 10 THEN Digit[n + 1] ELSE Nat2(n \div 10) \o Digit[(n % 10) + 1]
Dec(n) == IF n < 0 THEN "-" \o Nat2(0 - n) ELSE Nat2(n)
NaN == 1000001
Huge == 1000002 \* more than any 32 bits integer
Max64 == 1000003 \* more than any signed integer
None == [k |-> "None", x |-> 0]
Show(v) == IF v.k = "None" THEN "None" ELSE v.k \o ":" \o Dec(v.x)
Text(n) == IF n = "<null>" THEN "" ELSE n
-----------------------------------------------------------------------------
\* types
Simple == {"Char8", "Bool", "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64",
           "Float32", "Float64", "Duration", "DateTime"}
Users == [R |-> "Int8", U |-> "UInt64", W |-> "Int64", F |-> "Float32", G |-> "Float64", S3 |-> "String8",
          E |-> "Int32", L |-> "Int64"]
Types == Simple \cup DOMAIN Users \cup {"A", "T", "B", "Void"}
K(t) == CASE t \in Simple -> t [] t \in DOMAIN Users -> Users[t] [] OTHER -> "None"
In(t, x) == CASE t = "R" -> -2 <= x /\ x <= 5
              [] t = "U" -> x <= 10
              [] t = "W" -> -3 <= x \* no upper bound but the kind's
              [] t = "F" -> 0 < x /\ x <= 10
              [] t = "G" -> -2 <= x /\ x < 4
              [] t = "S3" -> x <= 3
              [] t = "E" -> x \in {0, 1, 3}
              [] t = "L" -> x \in {0, 1}
              [] OTHER -> TRUE
Item(n, i) == n \o "[" \o Dec(i) \o "]"
\* the parameters of simple types of one of any type
RECURSIVE Flat(_, _)
Flat(n, t) == CASE t = "A" -> <<[n |-> Item(n, 0), t |-> "Int32"], [n |-> Item(n, 1), t |-> "Int32"]>>
                [] t = "T" -> <<[n |-> n \o ".p", t |-> "Int32"]>> \o Flat(n \o ".q", "A")
                [] t = "B" -> Flat(Item(n, 0), "T") \o Flat(Item(n, 1), "T")
                [] OTHER -> <<[n |-> n, t |-> t]>>
Unset(ps) == [i \in 1..Len(ps) |-> [n |-> ps[i].n, t |-> ps[i].t, v |-> None]]
-----------------------------------------------------------------------------
\* requests
No == [kind |-> "none", n |-> "", ps |-> <<>>, ret |-> None]
At(s, n) == {i \in 1..Len(s) : s[i].n = n}
The(S) == CHOOSE x \in S : TRUE
Name(q) == CASE q.kind = "get" -> "get_" \o q.n [] q.kind = "set" -> "set_" \o q.n [] OTHER -> q.n
Index(q, n) == IF q.kind = "set" THEN 0 ELSE IF At(q.ps, n) = {} THEN -1 ELSE The(At(q.ps, n)) - 1
Inside(q, i) == 0 <= i /\ i < Len(q.ps)
Prop(p) == IF At(props, p) = {} THEN [n |-> p, t |-> "Int8", a |-> 0] ELSE props[The(At(props, p))]
Op(m) == IF At(ops, m) = {} THEN [n |-> m, ps |-> <<>>, r |-> <<>>] ELSE ops[The(At(ops, m))]
\* types are those of when the request was made, but for a property and a return value
ParamType(q, i) == IF q.kind = "set" THEN Prop(q.n).t ELSE q.ps[i + 1].t
RetType(q) == CASE q.kind = "get" -> <<Prop(q.n).t>>
                [] q.kind = "op" -> [i \in 1..Len(Op(q.n).r) |-> Op(q.n).r[i].t]
                [] OTHER -> <<>>
Err(e, v) == <<e>> \o v
Fine == <<>>
Fault(t, v) == IF v.k # K(t) THEN Err("InvalidAnyType", <<v.k, K(t)>>)
               ELSE IF ~In(t, v.x) THEN Err("range", <<>>) ELSE Fine
\* the request and the error
SetAt(q, i, v) ==
  IF q.kind = "custom" THEN [q |-> [q EXCEPT !.ps[i + 1].v = v], e |-> Fine]
  ELSE IF ~Inside(q, i) THEN [q |-> q, e |-> Err("InvalidParameterIndex", <<Dec(i), Dec(Len(q.ps))>>)]
  ELSE LET f == Fault(ParamType(q, i), v) IN
       IF f = Fine THEN [q |-> [q EXCEPT !.ps[i + 1].v = v], e |-> f]
       ELSE [q |-> q, e |-> IF f[1] = "range" THEN Err("InvalidParameterValue", <<q.ps[i + 1].n, Show(v)>>) ELSE f]
SetRet(q, v) ==
  IF q.kind = "custom" THEN [q |-> [q EXCEPT !.ret = v], e |-> Fine]
  ELSE IF RetType(q) = <<>> THEN [q |-> q, e |-> Err("VoidOperation", <<q.n>>)]
  ELSE LET f == Fault(RetType(q)[1], v) IN
       IF f = Fine THEN [q |-> [q EXCEPT !.ret = v], e |-> f]
       ELSE [q |-> q, e |-> IF f[1] = "range" THEN Err("InvalidReturnValue", <<Show(v)>>) ELSE f]
-----------------------------------------------------------------------------
\* what an operation does with its request: s = [q, res, e]
Integer == {"Int32", "Int8"}
Items(n, t) == [i \in 1..Len(Flat(n, t)) |-> Flat(n, t)[i].n]
\* the value of each item in turn
RECURSIVE GetItems(_, _, _, _)
GetItems(q, ns, ds, i) ==
  IF i > Len(ns) THEN [xs |-> <<>>, e |-> Fine]
  ELSE LET j == Index(q, ns[i])
           rest == GetItems(q, ns, ds, i + 1) IN
       IF j = -1 /\ ds = <<>> THEN [xs |-> <<>>, e |-> Err(ns[i], <<>>)]
       ELSE IF j # -1 /\ ~(q.ps[j + 1].v.k \in Integer) THEN [xs |-> <<>>, e |-> Err("item", <<>>)]
       ELSE [xs |-> <<Dec(IF j = -1 THEN ds[i] ELSE q.ps[j + 1].v.x)>> \o rest.xs, e |-> rest.e]
RECURSIVE SetItems(_, _, _, _)
SetItems(q, ns, xs, i) ==
  IF i > Len(ns) THEN [q |-> q, e |-> Fine]
  ELSE LET j == Index(q, ns[i]) IN
       IF j = -1 THEN [q |-> q, e |-> Err(ns[i], <<>>)]
       ELSE LET r == SetAt(q, j, [k |-> "Int32", x |-> xs[i]]) IN
            IF r.e = Fine THEN SetItems(r.q, ns, xs, i + 1) ELSE r
Joined(xs) == FoldLeft(LAMBDA a, b : a \o " " \o b, "", xs)
Cut(v) == IF v.k = "String8" THEN [v EXCEPT !.x = IF @ < 0 THEN 0 ELSE IF @ > 3 THEN 3 ELSE @] ELSE v
Act(s, a) ==
  LET j == Index(s.q, a.n)
      v == [k |-> a.k, x |-> a.x]
      out1(r) == [s EXCEPT !.q = r.q, !.e = r.e]
      missing == [s EXCEPT !.e = Err(a.n, <<>>)]
      wrong == [s EXCEPT !.e = Err("InvalidParameterType", <<Name(s.q), a.n, s.q.ps[j + 1].v.k, a.k>>)]
      said(t) == [s EXCEPT !.res = Append(@, t)] IN
  CASE a.op = "get" -> IF j = -1 THEN missing
                       ELSE IF s.q.ps[j + 1].v.k # a.k THEN wrong ELSE said(Show(Cut(s.q.ps[j + 1].v)))
    [] a.op = "getd" -> IF j = -1 THEN said(Show(Cut(v)))
                        ELSE IF s.q.ps[j + 1].v.k # a.k THEN wrong ELSE said(Show(Cut(s.q.ps[j + 1].v)))
    [] a.op = "set" -> IF j = -1 THEN missing ELSE out1(SetAt(s.q, j, Cut(v)))
    [] a.op = "ret" -> out1(SetRet(s.q, Cut(v)))
    \* arrays and structures: a.k tells which
    [] a.op = "gets" -> LET g == GetItems(s.q, Items(a.n, a.k), a.xs, 1) IN
                        IF g.e = Fine THEN said(Joined(g.xs)) ELSE [s EXCEPT !.e = g.e]
    [] a.op = "sets" -> out1(SetItems(s.q, Items(a.n, a.k), a.xs, 1))
RECURSIVE Run(_, _, _)
Run(s, acts, i) == IF i > Len(acts) \/ s.e # Fine THEN s ELSE Run(Act(s, acts[i]), acts, i + 1)
Body(q, acts) == LET s == [q |-> q, res |-> <<>>, e |-> Fine] IN
                 IF Name(q) = "lost" THEN [s EXCEPT !.e = Err("InvalidOperationName", <<"lost">>)]
                 ELSE Run(s, acts, 1)
-----------------------------------------------------------------------------
Init == ops = <<>> /\ props = <<>> /\ reqs = [r \in Slots |-> No] /\ out = {[e |-> "ok", v |-> <<>>]}
Of(e, v) == out' = {[e |-> e, v |-> v]}
\* errors of fields, which another property describes
ItemErrs == {"InvalidAnyType", "InvalidFieldValue", "InvalidArrayValue", "InvalidFieldType"}
\* what is seen, then the error and what it tells
End(res, e) == IF e = Fine THEN Of("ok", res)
               ELSE IF e[1] = "item" THEN out' = {[e |-> x, v |-> res] : x \in ItemErrs} \cup {[e |-> "InvalidAnyType", v |-> res \o <<"None", "Int32">>]}
               ELSE Of(e[1], res \o SubSeq(e, 2, Len(e)))
Held == UNCHANGED <<ops, props>>
Still == Held /\ UNCHANGED reqs
Put(r, q) == reqs' = [reqs EXCEPT ![r] = q]
PublishOp(o) == /\ ops' = IF At(ops, o.n) = {} THEN Append(ops, [n |-> o.n, ps |-> <<>>, r |-> <<>>])
                          ELSE [ops EXCEPT ![The(At(ops, o.n))].ps = <<>>, ![The(At(ops, o.n))].r = <<>>]
                /\ UNCHANGED <<props, reqs>> /\ Of("ok", <<>>)
Param(o) == LET i == The(At(ops, o.m)) p == [n |-> o.n, t |-> o.t, dir |-> o.dir] IN
            /\ ops' = IF o.dir = "Return" THEN [ops EXCEPT ![i].r = <<p>>] ELSE [ops EXCEPT ![i].ps = Append(@, p)]
            /\ UNCHANGED <<props, reqs>> /\ Of("ok", <<>>)
PublishProp(o) == LET p == [n |-> o.n, t |-> o.t, a |-> o.a] IN
                  /\ props' = IF At(props, o.n) = {} THEN Append(props, p) ELSE [props EXCEPT ![The(At(props, o.n))] = p]
                  /\ UNCHANGED <<ops, reqs>> /\ Of("ok", <<>>)
\* a request by the name of an operation or of the getter or setter of a property
Sub(n, i) == SubSeq(n, i, Len(n))
Acc(n) == IF Len(n) >= 4 THEN SubSeq(n, 1, 4) ELSE ""
Invokable(m) == LET a == Op(m).ps \o Op(m).r IN \A i \in 1..Len(a) : K(a[i].t) # "None"
FlatOf(m) == FlattenSeq([i \in 1..Len(Op(m).ps) |-> Flat(Op(m).ps[i].n, Op(m).ps[i].t)])
OpRequest(m) == [kind |-> "op", n |-> m, ps |-> Unset(FlatOf(m)), ret |-> None]
Created(n) ==
  IF At(ops, n) # {} THEN IF Invokable(n) THEN OpRequest(n) ELSE No
  ELSE IF Acc(n) = "get_" /\ At(props, Sub(n, 5)) # {} /\ Prop(Sub(n, 5)).a # 2
  THEN [No EXCEPT !.kind = "get", !.n = Sub(n, 5)]
  ELSE IF Acc(n) = "set_" /\ At(props, Sub(n, 5)) # {} /\ Prop(Sub(n, 5)).a # 1
  THEN [kind |-> "set", n |-> Sub(n, 5), ps |-> <<[n |-> Sub(n, 5), t |-> "", v |-> None]>>, ret |-> None]
  ELSE No
Told(q) == IF q.kind = "none" THEN <<"null">> ELSE <<Name(q), Dec(Len(q.ps))>>
Create(o) == Held /\ Put(o.r, Created(o.n)) /\ Of("ok", Told(Created(o.n)))
\* a request for parameters of any types: made on its own
FlatRequest(o) == IF \E i \in 1..Len(FlatOf(o.m)) : FlatOf(o.m)[i].t = "Void"
                  THEN Still /\ Of("InvalidAnyType", <<>>)
                  ELSE Held /\ Put(o.r, OpRequest(o.m)) /\ Of("ok", Told(OpRequest(o.m)))
\* a request of another kind, with the parameters it wants, which takes any value
Custom(o) == LET q == [kind |-> "custom", n |-> o.n, ret |-> None,
                       ps |-> [i \in 1..Len(o.ns) |-> [n |-> o.ns[i], t |-> "", v |-> None]]] IN
             Held /\ Put(o.r, q) /\ Of("ok", <<>>)
Delete(o) == Held /\ Put(o.r, No) /\ Of("ok", <<>>)
Look(o) == Still /\ Of("ok", Told(reqs[o.r]))
IndexOf(o) == Still /\ Of("ok", <<Dec(Index(reqs[o.r], o.n))>>)
Set(o) == LET r == SetAt(reqs[o.r], o.i, [k |-> o.k, x |-> o.x]) IN Held /\ Put(o.r, r.q) /\ End(<<>>, r.e)
Get(o) == LET q == reqs[o.r] IN
          Still /\ IF Inside(q, o.i) THEN Of("ok", <<Show(q.ps[o.i + 1].v)>>)
                   ELSE Of("InvalidParameterIndex", <<Dec(o.i), Dec(Len(q.ps))>>)
SetReturn(o) == LET r == SetRet(reqs[o.r], [k |-> o.k, x |-> o.x]) IN Held /\ Put(o.r, r.q) /\ End(<<>>, r.e)
GetReturn(o) == LET q == reqs[o.r] IN
                Still /\ IF q.kind # "custom" /\ RetType(q) = <<>> THEN Of("VoidOperation", <<q.n>>)
                         ELSE Of("ok", <<Show(q.ret)>>)
\* the invocation of operation m with a request: the first fault
Given(q, n) == IF Index(q, n) = -1 THEN "None" ELSE q.ps[Index(q, n) + 1].v.k
Unfit(q, m) == {i \in 1..Len(Op(m).ps) : Op(m).ps[i].dir # "Out" /\ Given(q, Op(m).ps[i].n) # K(Op(m).ps[i].t)}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Invoke(o) ==
  LET q == IF o.r = 0 THEN No ELSE reqs[o.r] m == o.m
      bad == Unfit(q, m)
      p == Op(m).ps[Least(bad)]
      b == Body(q, o.acts) IN
  /\ Held
  /\ IF q.kind = "none" THEN UNCHANGED reqs /\ out' = {[e |-> "InvalidOperationName", v |-> <<n>>] : n \in {"", "<null>"}}
     ELSE IF Name(q) # m THEN UNCHANGED reqs /\ Of("InvalidOperationName", <<Name(q)>>)
     ELSE IF Len(q.ps) # Len(Op(m).ps)
     THEN UNCHANGED reqs /\ Of("InvalidParameterCount", <<Dec(Len(Op(m).ps)), Dec(Len(q.ps))>>)
     ELSE IF bad # {}
     THEN /\ UNCHANGED reqs
          /\ out' = {[e |-> "InvalidParameterType", v |-> <<m, p.n, Given(q, p.n), K(p.t)>>]}
                    \cup IF Index(q, p.n) # -1 THEN {}
                         ELSE {[e |-> "InvalidParameterIndex", v |-> <<"-1", Dec(Len(q.ps))>>]}
     ELSE Put(o.r, b.q) /\ End(b.res, b.e)
\* the component is given the request
Direct(o) == LET b == Body(reqs[o.r], o.acts) IN Held /\ Put(o.r, b.q) /\ End(b.res, b.e)
GetValue(o) ==
  LET b == Body([No EXCEPT !.kind = "get", !.n = o.p], o.acts) IN
  Still /\ IF Prop(o.p).a = 2 THEN Of("InvalidAccessKind", <<>>)
           ELSE End(IF b.e = Fine THEN Append(b.res, Show(b.q.ret)) ELSE b.res, b.e)
SetValue(o) ==
  LET s == SetAt([kind |-> "set", n |-> o.p, ps |-> <<[n |-> o.p, t |-> "", v |-> None]>>, ret |-> None], 0,
                 [k |-> o.k, x |-> o.x])
      b == Body(s.q, o.acts) IN
  Still /\ IF Prop(o.p).a = 1 THEN Of("InvalidAccessKind", <<>>)
           ELSE IF s.e # Fine THEN End(<<>>, s.e) ELSE End(b.res, b.e)
-----------------------------------------------------------------------------
\* what histories may hold
Live(r) == r \in Slots /\ reqs[r].kind # "none"
Plain(n) == \A i \in 1..Len(n) : SubSeq(n, i, i) \notin {"[", "."}
Nested == {"A", "T", "B"}
LegalAct(q, a) == \/ a.op \in {"get", "getd"} /\ a.k \in Simple \cup {"String8"} /\ a.n # "<null>"
                  \/ a.op \in {"set", "ret"} /\ a.k \in Simple \cup {"String8"}
                  \/ a.op \in {"gets", "sets"} /\ q.kind # "set"
                     /\ \A i \in 1..Len(Items(a.n, a.k)) : LET j == Index(q, Items(a.n, a.k)[i]) IN
                          j = -1 \/ q.ps[j + 1].v.k \in Integer \cup {"None"}
LegalActs(q, as) == \A i \in 1..Len(as) : LegalAct(q, as[i])
                       /\ (as[i].op = "gets" => \A j \in 1..i - 1 : as[j].op # "set")
Legal(o) ==
  CASE o.op \in {"op", "rest"} -> TRUE
    [] o.op = "param" -> /\ At(ops, o.m) # {} /\ At(Op(o.m).ps \o Op(o.m).r, o.n) = {}
                         /\ (o.dir = "Return" => Op(o.m).r = <<>>)
    [] o.op = "prop" -> K(o.t) # "None"
    [] o.op = "create" -> ~Live(o.r)
    [] o.op = "flat" -> ~Live(o.r) /\ At(ops, o.m) # {}
    [] o.op = "custom" -> ~Live(o.r)
    [] o.op \in {"delete", "look", "getret"} -> Live(o.r)
    [] o.op = "index" -> Live(o.r) /\ (reqs[o.r].kind = "set" => o.n = reqs[o.r].n)
    [] o.op = "set" -> /\ Live(o.r)
                       /\ (reqs[o.r].kind = "custom" => Inside(reqs[o.r], o.i)
                             /\ (Plain(reqs[o.r].ps[o.i + 1].n) \/ o.k \in Integer \cup {"None"}))
    [] o.op = "get" -> Live(o.r) /\ (reqs[o.r].kind = "custom" => Inside(reqs[o.r], o.i))
    [] o.op = "setret" -> Live(o.r)
    [] o.op = "invoke" -> At(ops, o.m) # {} /\ (o.r = 0 \/ (Live(o.r) /\ LegalActs(reqs[o.r], o.acts)))
    [] o.op = "direct" -> Live(o.r) /\ LegalActs(reqs[o.r], o.acts)
    [] o.op = "getValue" -> At(props, o.p) # {} /\ LegalActs([No EXCEPT !.kind = "get"], o.acts)
    [] o.op = "setValue" -> At(props, o.p) # {} /\ LegalActs([No EXCEPT !.kind = "set"], o.acts)
    [] OTHER -> FALSE
Do(o) == CASE o.op = "rest" -> Still /\ Of("ok", <<>>) [] o.op = "op" -> PublishOp(o) [] o.op = "param" -> Param(o) [] o.op = "prop" -> PublishProp(o)
           [] o.op = "create" -> Create(o) [] o.op = "flat" -> FlatRequest(o) [] o.op = "custom" -> Custom(o)
           [] o.op = "delete" -> Delete(o) [] o.op = "look" -> Look(o) [] o.op = "index" -> IndexOf(o)
           [] o.op = "set" -> Set(o) [] o.op = "get" -> Get(o)
           [] o.op = "setret" -> SetReturn(o) [] o.op = "getret" -> GetReturn(o)
           [] o.op = "invoke" -> Invoke(o) [] o.op = "direct" -> Direct(o)
           [] o.op = "getValue" -> GetValue(o) [] o.op = "setValue" -> SetValue(o)
-----------------------------------------------------------------------------
\* a request the library made never holds a value its type does not accept
Accepted == \A r \in Slots : LET q == reqs[r] IN q.kind = "op" =>
              \A i \in 1..Len(q.ps) : q.ps[i].v = None \/ Fault(q.ps[i].t, q.ps[i].v) = Fine
Distinct == \A r \in Slots : LET q == reqs[r] IN \A i, j \in 1..Len(q.ps) : q.ps[i].n = q.ps[j].n => i = j
=============================================================================
