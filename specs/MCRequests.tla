--------------------------- MODULE MCRequests ---------------------------
EXTENDS Requests, TLC, Json
CONSTANTS SimDepth
VARIABLE hist
MCInit == Init /\ hist = <<>>
\* a small world
A0 == [op |-> "ret", n |-> "", k |-> "Int8", x |-> 3, xs |-> <<>>]
ActSet == {<<>>, <<A0>>, <<[A0 EXCEPT !.x = 9]>>, <<[A0 EXCEPT !.op = "get", !.n = "p"]>>,
           <<[A0 EXCEPT !.op = "set", !.n = "q"], [A0 EXCEPT !.op = "get", !.n = "q"]>>}
Ops == [op : {"op"}, n : {"m", "get_x"}]
  \cup [op : {"param"}, m : {"m"}, n : {"p", "q"}, t : {"R", "A"}, dir : {"In", "Out", "Return"}]
  \cup [op : {"prop"}, n : {"x"}, t : {"R", "E"}, a : {0, 1, 2}]
  \cup [op : {"create"}, r : {1}, n : {"m", "get_x", "set_x", "n"}]
  \cup [op : {"custom"}, r : {1}, n : {"m"}, ns : {<<"p">>, <<"q">>}]
  \cup [op : {"delete"}, r : {1}]
  \cup [op : {"set"}, r : {1}, i : {0, 1}, k : {"Int8", "Bool"}, x : {3, 9}]
  \cup [op : {"setret"}, r : {1}, k : {"Int8"}, x : {3, 9}]
  \cup [op : {"getret"}, r : {1}] \cup [op : {"get"}, r : {1}, i : {0}]
  \cup [op : {"invoke"}, m : {"m", "get_x"}, r : {0, 1}, acts : ActSet]
  \cup [op : {"getValue"}, p : {"x"}, acts : ActSet]
  \cup [op : {"setValue"}, p : {"x"}, k : {"Int8", "Int32"}, x : {3, 9}, acts : {<<>>}]
MCNext == UNCHANGED hist /\ \E o \in Ops : Legal(o) /\ Do(o)
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
View == <<ops, props, reqs>>
Bounded == Len(FlattenSeq([i \in 1..Len(ops) |-> ops[i].ps \o ops[i].r])) <= 2
\* an invocation that is refused by the operation leaves the request as it is
Refused == [][\A x \in out' : x.e \in {"InvalidOperationName", "InvalidParameterCount", "InvalidParameterIndex"}
                => UNCHANGED reqs]_<<vars, hist>>
-----------------------------------------------------------------------------
Pick(X) == RandomElement(X)
Kinds == Simple \cup {"String8"}
Mn == {"m", "n", "get_x", "set_x", "lost"}
Pn == {"p", "q", "r"}
Xn == {"x", "y"}
TypeOf(w) == IF w <= 8 THEN Pick(DOMAIN Users) ELSE IF w <= 14 THEN Pick(Simple) ELSE Pick({"A", "T", "B", "Void"})
\* a number for a kind
Num(k, w) == CASE k = "Bool" -> Pick({0, 1})
               [] k = "Char8" -> Pick(65..75)
               [] k \in {"UInt8", "UInt16", "UInt32"} -> Pick({0, 1, 5, 10, 100})
               [] k = "UInt64" -> Pick({0, 1, 9, 10, 11, Huge, Max64})
               [] k = "String8" -> Pick({-1, 0, 1, 2, 3, 4, 6})
               [] k \in {"Float32", "Float64"} -> Pick({-3, -2, -1, 0, 1, 3, 4, 5, 9, 10, 11, NaN})
               [] k = "Int64" -> Pick({-4, -3, 0, 1, 2, 5, 6, Huge})
               [] OTHER -> Pick({-3, -2, -1, 0, 1, 2, 3, 4, 5, 6})
Val(k) == [k |-> k, x |-> IF k = "None" THEN 0 ELSE Num(k, 1)]
KindFor(q, i) == IF q.kind = "custom" /\ Inside(q, i) /\ ~Plain(q.ps[i + 1].n) THEN Pick({"Int32", "Int32", "Int8", "None"})
                 ELSE IF Pick(1..8) = 1 \/ ~Inside(q, i) \/ q.kind = "custom" THEN Pick(Kinds \cup {"None"})
                 ELSE K(ParamType(q, i))
Names(q) == IF q.ps = <<>> THEN Pn ELSE {q.ps[i].n : i \in 1..Len(q.ps)}
RetKind(q) == IF Pick(1..6) = 1 \/ RetType(q) = <<>> THEN Pick(Kinds) ELSE K(RetType(q)[1])
Three == <<1, 2, 3, 4, 5, 6>>
OneAct(q, h) ==
  LET w == Pick(1..12) n == IF Pick(1..6) = 1 THEN Pick(Pn) ELSE Pick(Names(q))
      j == IF q.kind = "set" THEN 0 ELSE Index(q, n)
      k0 == IF j = -1 \/ Pick(1..8) = 1 THEN Pick(Kinds)
            ELSE IF q.ps[j + 1].v.k # "None" /\ Pick(1..4) > 1 THEN q.ps[j + 1].v.k ELSE LET z == KindFor(q, j) IN z
      k == IF k0 = "None" THEN "Int32" ELSE k0
      t == Pick(Nested) IN
  CASE w <= 4 -> [op |-> "get", n |-> n, k |-> k, x |-> Pick({0, 1}), xs |-> <<>>]
    [] w <= 5 -> [op |-> "getd", n |-> n, k |-> k, x |-> Num(k, 1), xs |-> <<>>]
    [] w <= 7 -> [op |-> "set", n |-> n, k |-> k, x |-> Num(k, 1), xs |-> <<>>]
    [] w <= 9 -> LET z == RetKind(q) IN [op |-> "ret", n |-> "", k |-> z, x |-> Num(z, 1), xs |-> <<>>]
    [] w <= 11 -> [op |-> "gets", n |-> Pick(Pn), k |-> t, x |-> 0,
                   xs |-> IF Pick(1..2) = 1 THEN <<>> ELSE [i \in 1..Len(Flat("p", t)) |-> Pick(-9..9)]]
    [] OTHER -> [op |-> "sets", n |-> Pick(Pn), k |-> t, x |-> 0, xs |-> [i \in 1..Len(Flat("p", t)) |-> Pick(-9..9)]]
\* only acts of one kind of names, so that the sequence is legal
Acts(q, h) == LET c == Pick(0..3) IN [i \in 1..c |-> CHOOSE x \in {OneAct(q, i)} : TRUE]
OpNames == IF ops = <<>> THEN Mn ELSE {ops[i].n : i \in 1..Len(ops)}
Items2(n) == LET t == Pick(Nested) f == Items(n, t) IN IF Pick(1..4) = 1 THEN SubSeq(f, 1, Len(f) - 1) ELSE f
NamesFor(m, w) == IF w = 1 /\ At(ops, m) # {} THEN [i \in 1..Len(Op(m).ps) |-> Op(m).ps[i].n]
                  ELSE IF w = 2 THEN SetToSeq({x \in Pn : Pick(1..2) = 1})
                  ELSE Items2(Pick(Pn))
Fresh(m) == LET f == IF At(ops, m) = {} THEN Pn ELSE {n \in Pn : At(Op(m).ps \o Op(m).r, n) = {}} IN
            Pick(IF f = {} THEN Pn ELSE f)
Publish(h) ==
  LET w == IF ops = <<>> THEN 1 ELSE Pick(2..10) m == Pick(OpNames) d == Pick({"In", "In", "Out", "InOut", "Return"}) IN
  CASE w <= 2 -> [op |-> "op", n |-> Pick(Mn)]
    [] w <= 7 -> [op |-> "param", m |-> m, n |-> Fresh(m), t |-> TypeOf(Pick(1..15)), dir |-> d]
    [] OTHER -> [op |-> "prop", n |-> Pick(Xn), t |-> TypeOf(Pick(1..14)), a |-> Pick(0..2)]
LiveSlots == {r \in Slots : Live(r)}
Use(h) ==
  LET w == Pick(1..40) r == IF LiveSlots = {} \/ Pick(1..5) = 1 THEN Pick(Slots) ELSE Pick(LiveSlots)
      q == reqs[r] i == IF Pick(1..8) = 1 \/ q.ps = <<>> THEN Pick({-1, 0, 1, 4, 100}) ELSE Pick(0..Len(q.ps) - 1)
      p == Pick(Xn) m == IF Live(r) /\ Pick(1..8) > 1 THEN Name(q) ELSE Pick(OpNames)
      free == Slots \ LiveSlots IN
  IF free # {} /\ (LiveSlots = {} \/ w <= 8)
  THEN LET s == Pick(free) IN
       CASE w % 8 <= 4 -> [op |-> "create", r |-> s, n |-> IF Pick(1..3) = 1 THEN Pick(Mn \cup {"<null>", "", "get_", "get_y", "set_y", "get_z", "x", "set_"})
                                                          ELSE Pick(OpNames)]
         [] w % 8 = 5 -> [op |-> "flat", r |-> s, m |-> Pick(OpNames)]
         [] OTHER -> LET n == Pick(OpNames) IN [op |-> "custom", r |-> s, n |-> n, ns |-> NamesFor(n, Pick(1..4))]
  ELSE CASE w <= 9 -> [op |-> "delete", r |-> r]
         [] w = 10 -> [op |-> "look", r |-> r]
         [] w = 11 -> [op |-> "index", r |-> r, n |-> IF q.kind = "set" THEN q.n ELSE Pick(Names(q) \cup {"<null>", "", "z"})]
         [] w <= 20 -> LET k == KindFor(q, i) IN
                       [op |-> "set", r |-> r, i |-> i, k |-> k, x |-> IF k = "None" THEN 0 ELSE Num(k, 1)]
         [] w <= 22 -> [op |-> "get", r |-> r, i |-> i]
         [] w <= 24 -> LET k == RetKind(q) IN [op |-> "setret", r |-> r, k |-> k, x |-> Num(k, 1)]
         [] w = 25 -> [op |-> "getret", r |-> r]
         [] w <= 32 -> [op |-> "invoke", m |-> m, r |-> IF Pick(1..12) = 1 THEN 0 ELSE r, acts |-> Acts(q, 1)]
         [] w <= 36 -> [op |-> "direct", r |-> r, acts |-> Acts(q, 1)]
         [] w <= 38 -> [op |-> "getValue", p |-> p, acts |-> Acts(IF At(props, p) = {} THEN No ELSE [No EXCEPT !.kind = "get", !.n = p], 1)]
         [] OTHER -> LET k == IF At(props, p) = {} \/ Pick(1..6) = 1 THEN Pick(Kinds) ELSE K(Prop(p).t) IN
                     [op |-> "setValue", p |-> p, k |-> k, x |-> Num(k, 1),
                      acts |-> Acts([kind |-> "set", n |-> p, ps |-> <<[n |-> p, t |-> "", v |-> [k |-> k, x |-> 0]]>>, ret |-> None], 1)]
PickOp(h) == LET w == Pick(1..100) early == Len(hist) < 14 IN
             IF (early /\ w <= 85) \/ w <= 15 THEN Publish(1) ELSE Use(2)
Calm == [op |-> "rest"]
SimNext == /\ Len(hist) < SimDepth
           /\ \E o \in {PickOp(i) : i \in 1..1} :
                IF Legal(o) THEN Do(o) /\ hist' = Append(hist, o)
                ELSE Do(Calm) /\ hist' = Append(hist, Calm)
SimSpec == MCInit /\ [][SimNext]_<<vars, hist>>
Emitted == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
