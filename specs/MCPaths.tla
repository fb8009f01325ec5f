------------------------------ MODULE MCPaths ------------------------------
EXTENDS Paths, Json
CONSTANTS SimDepth, MaxObjs, Alphabet, MaxPath
VARIABLE hist
Names == {<<"a">>, <<"b">>, <<"a", "b">>, <<"A">>, <<"a", "_", "1">>, <<"c">>, <<"d">>}
Types == {"int", "list", "S", "A", "T", "dstr", "darr"}
Elements == {"ep", "src", "snk", "fail", "op", "prop"}
Makes == [op : {"make"}, k : {"node", "plain", "ep", "S", "darr"},
          p : 1..MaxObjs, n : {<<"a">>, <<"b">>}, c : 0..MaxObjs]
MakeOk(o) == /\ Known(pa, o.p) /\ (o.k \in Components) = (o.c # 0)
             /\ (o.k \notin Components => o.n = <<"a">>) /\ (o.c # 0 => Is(pa, o.c, {"ctn"}))
             /\ (pa.objs[o.p].k = "darr") => o.n = <<"a">>
MCInit == Init /\ hist = <<>>
MCNext == \/ \E o \in Makes : MakeOk(o) /\ Do(o) /\ hist' = hist
          \/ \E r \in DOMAIN pa.refd, c \in Ids(pa) :
               Do([op |-> "ref", r |-> r, c |-> c]) /\ hist' = hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
RECURSIVE SumR(_, _)
SumR(f, E) == IF E = {} THEN 0 ELSE LET e == CHOOSE x \in E : TRUE IN Len(f[e]) + SumR(f, E \ {e})
Small == Len(pa.objs) <= MaxObjs /\ SumR(pa.refd, DOMAIN pa.refd) <= 1
View == pa
Short == UNION {[1..n -> Alphabet] : n \in 0..MaxPath}
\* whatever the characters, a path leads to an object or nowhere; extra
\* separators change nothing
Total == \A p \in Short :
           /\ Resolve(pa, 1, p) \in Ids(pa) \cup {Null}
           /\ Resolve(pa, 1, <<"/">> \o p) = Resolve(pa, 1, <<"/", ".", "/">> \o p)
           /\ Resolve(pa, 1, p \o <<"/">>) = Resolve(pa, 1, p)

Pick(X) == RandomElement(X)
Of(ks) == {i \in Ids(pa) : pa.objs[i].k \in ks}
PickOf(h, ks) == IF Of(ks) = {} THEN 1 ELSE Pick(Of(ks))
PickAny(h) == Pick(Ids(pa))
PickName(h) == IF Pick(1..2) = 1 THEN Pick({<<"a">>, <<"b">>}) ELSE Pick(Names)
MakeComp(h) ==
  LET c == PickOf(h, {"ctn"}) IN
  [op |-> "make", k |-> IF Pick(1..4) = 1 THEN "plain" ELSE "node", p |-> pa.objs[c].p,
   n |-> IF Pick(1..12) = 1 THEN <<"[", "0", "]">> ELSE PickName(h), c |-> c]
MakeElem(h) == [op |-> "make", k |-> Pick(Elements), p |-> PickOf(h, Components), n |-> PickName(h), c |-> 0]
MakeField(h) ==
  LET d == Of({"dstr", "darr"})
  IN [op |-> "make", k |-> Pick(Types), p |-> IF d # {} /\ Pick(1..2) = 1 THEN Pick(d) ELSE PickOf(h, Components \ {"sim"}),
      n |-> PickName(h), c |-> 0]
Junk == {<<>>, <<"/">>, <<".">>, <<".", ".">>, <<"/", ".", ".">>, <<"/", ".">>, <<"/", "/">>,
         <<".", ".", ".">>, <<"/", "a">>, <<".", "a">>, <<"[", "0", "]">>, <<"[", "1">>, <<"[">>,
         <<"[", "]">>, <<"[", "-", "1", "]">>, <<"[", "-", "0", "2", "]">>, <<"]">>,
         <<"[", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "]">>,
         <<"[", "1", "a", "]">>, <<"/", "_", "A">>, <<"/", "_", "R">>, <<"/", "_", "a">>, <<"/", "_">>,
         <<"/", "_", "M", "o", "d", "e", "l", "s">>, <<"/", "r", "e", "s">>, <<"/", "a", "b">>,
         <<"/", "b">>, <<".", "b">>, <<".", "c">>, <<"/", "A">>, <<"[", "2", "]">>, <<"[", "-", "]">>,
         <<"[", "3", "]">>, <<".", "/">>, <<"/", ".", ".", "/", "a">>, <<"/", ".", ".", ".", "/">>}
\* a walk from object to object, with the text of each step
Seps == {<<"/">>, <<"/">>, <<".">>, <<"/", "/">>, <<"/", ".", "/">>, <<".", "/">>, <<"/", ".">>}
RefTo(o) == UNION {SeqSet(pa.refd[x]) : x \in Sub(pa, o, {"ref"})}
Step(o, t, w) ==
  IF pa.objs[t].k \in {"ctn", "ref"} THEN <<"_">> \o pa.objs[t].n
  ELSE IF pa.objs[o].k \in Arrays
  THEN LET i == Cardinality({m \in Kids(pa, o) : m < t})
           n == Size(pa, o)
       IN CASE w = 1 -> <<"[", "-">> \o Digit(n - i) \o <<"]">>
            [] w = 2 -> <<"[", "-">> \o Digit((2 * n - i) % 10) \o <<"]">>
            [] w = 3 -> <<"[", "0">> \o Digit(i) \o <<"]">>
            [] w = 4 -> <<"[">> \o Digit((n + i) % 10) \o <<"]">>
            [] OTHER -> ItemName(i)
  ELSE pa.objs[t].n
RECURSIVE Walk(_, _, _)
Walk(h, o, n) ==
  IF n = 0 \/ o = Null THEN <<>>
  ELSE LET T == Kids(pa, o) \cup RefTo(o) IN
       IF T = {} \/ Pick(1..8) = 1 THEN Pick(Seps) \o DotDot \o Walk(h, Up(pa, o), n - 1)
       ELSE LET t == Pick(IF RefTo(o) # {} /\ Pick(1..2) = 1 THEN RefTo(o) ELSE T)
                s == Step(o, t, Pick(1..9))
            IN (IF pa.objs[o].k \in Arrays /\ Pick(1..2) = 1 THEN <<>> ELSE Pick(Seps)) \o s \o Walk(h, t, n - 1)
RECURSIVE Pieces(_, _)
Pieces(h, n) == IF n = 0 THEN <<>> ELSE Pick(Junk) \o Pieces(h, n - 1)
Cut(q) == SubSeq(q, 1, Pick(0..Len(q)))
PickPath(h) ==
  LET w == Pick(1..10) IN
  CASE w = 1 -> Path(pa, PickAny(h))
    [] w <= 3 -> <<"/">> \o Walk(h, 1, Pick(1..7))
    [] w <= 5 -> Path(pa, PickAny(h)) \o Pieces(h, Pick(1..3))
    [] w = 6 -> Cut(Path(pa, PickAny(h))) \o Pieces(h, Pick(1..2))
    [] OTHER -> Pieces(h, Pick(1..5))
PickBelow(h, a) ==
  LET D == {o \in Ids(pa) : Ancestor(pa, a, o)}
      b == Below(a, Pick(D))
  IN CASE Pick(1..2) = 1 -> LET p == Walk(h, a, Pick(1..5))
                            IN IF Pick(1..3) = 1 /\ p # <<>> THEN Tail(p) ELSE p
       [] Pick(1..4) = 1 -> PickPath(h)
       [] OTHER -> (IF Pick(1..4) = 1 /\ b # <<>> THEN Tail(b) ELSE b) \o Pieces(h, Pick({0, 0, 0, 1, 2}))
PickQuery(h) ==
  LET w == Pick(1..12) IN
  CASE w <= 3 -> [op |-> "abs", path |-> PickPath(h)]
    [] w <= 5 -> [op |-> "rel", o |-> IF Pick(1..20) = 1 THEN Null ELSE 0 - 1, path |-> <<>>]
    [] w <= 8 -> [op |-> "from", o |-> 0 - 1, path |-> <<>>]
    [] w <= 10 -> [op |-> "field", o |-> 0 - 1, path |-> <<>>]
    [] w = 11 -> [op |-> "path", o |-> PickAny(h)]
    [] OTHER -> [op |-> "anc", o |-> PickAny(h), a |-> PickAny(h)]
Fill(h, q) ==
  IF q.op \in {"rel", "from", "field"} /\ q.o = 0 - 1
  THEN LET o == IF q.op = "from" THEN PickAny(h) ELSE PickOf(h, Components)
       IN [q EXCEPT !.o = o, !.path = PickBelow(h, o)]
  ELSE q
PickOp(h) ==
  LET w == Pick(1..20) IN
  CASE Len(hist) < 4 -> MakeComp(h)
    [] w <= 3 /\ Len(pa.objs) < 40 -> MakeComp(h)
    [] w <= 5 /\ Len(pa.objs) < 60 -> MakeElem(h)
    [] w <= 8 /\ Len(pa.objs) < 90 -> MakeField(h)
    [] w <= 10 -> LET o == PickOf(h, {"ref"})
                      \* often another component of a name referenced already
                      n == {c \in Of(Components) : \E x \in RefTo(pa.objs[o].p) : pa.objs[x].n = pa.objs[c].n}
                  IN [op |-> "ref", r |-> o, c |-> IF n # {} /\ Pick(1..2) = 1 THEN Pick(n) ELSE PickOf(h, Components)]
    [] OTHER -> Fill(h, PickQuery(h))
SimNext == Len(hist) < SimDepth /\ \E o \in {PickOp(i) : i \in 1..1} :
             Do(o) /\ hist' = Append(hist, o)
SimSpec == MCInit /\ [][SimNext]_<<vars, hist>>
Emitted == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
