------------------------------ MODULE MCFields ------------------------------
EXTENDS Fields, Json
CONSTANTS SimDepth
VARIABLE hist
MCInit == Init /\ hist = <<>>
\* each input has one source
Pairs == {<<"A.ao", "B.af">>, <<"B.af[0]", "D.i">>, <<"A.o", "B.io">>, <<"B.io", "C.i">>,
          <<"A.so", "B.sio">>, <<"B.sio", "D.si">>, <<"A.ao[1]", "B.af[1]">>}
MCNext == \E o \in [op : {"set"}, l : {"A.ao[0]", "A.o", "A.so[1]"}, v : 0..1] \cup
                   [op : {"force"}, l : {"B.af[0]"}, v : {1}] \cup
                   [op : {"unforce"}, l : {"B.af[0]"}] \cup
                   {[op |-> "connect", a |-> p[1], b |-> p[2]] : p \in Pairs} \cup
                   {[op |-> "disconnect", a |-> p[1], b |-> p[2]] : p \in Pairs} \cup
                   [op : {"unlink"}, x : {"B"}, y : {"D"}] :
             Do(o) /\ hist' = hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
View == fl
Follow == \A u \in DOMAIN fl.conn : \A i \in 1..Len(fl.conn[u]) :
            LET t == fl.conn[u][i] IN
            \A j \in 1..Len(Field(u).leaves) :
               Field(t).leaves[j] \in Forcible \/ fl.val[Field(t).leaves[j]] = fl.val[Field(u).leaves[j]]
\* a forced value stays until it is forced again
Stays == [][\A l \in Forcible : (fl.forced[l] /\ fl'.forced[l]) =>
                (fl'.val[l] = fl.val[l] \/ (out'.e = "ok" /\ fl'.val[l] = 1))]_vars
-----------------------------------------------------------------------------
Pick(X) == RandomElement(X)
Rank == [A |-> 1, B |-> 2, C |-> 3, D |-> 4]
CompOf(n) == CHOOSE c \in DOMAIN Of : n \in Of[c]
Outs == {n \in Names : Field(n).out}
Ins == {n \in Names : Field(n).in}
\* links forwards only, so that nothing goes round
Goals(a) == {b \in Names : Rank[CompOf(b)] > Rank[CompOf(a)]}
Mates(a) == {b \in Goals(a) : Field(b).in /\ Field(b).shape = Field(a).shape}
GoalsOf == [a \in Names |-> Goals(a)]
MatesOf == [a \in Names |-> Mates(a)]
Sources == {a \in Outs : MatesOf[a] # {}}
XSources == {a \in Sources : Field(a).fam = "x"}
PickPair(h) ==
  LET w == Pick(1..12) IN
  IF w <= 9 THEN LET a == Pick(Sources) IN <<a, Pick(MatesOf[a])>>
  ELSE IF w = 10 THEN LET a == Pick(Names \ Of["D"]) IN <<a, Pick(GoalsOf[a])>>
  ELSE IF w = 11 THEN LET a == Pick(Outs \ Of["D"]) IN <<a, Pick(GoalsOf[a])>>
  ELSE LET a == Pick(Outs) IN <<a, a>>
Joined == {<<u, t>> \in (DOMAIN fl.conn) \X UnitNames : InSeq(fl.conn[u], t)} \cup fl.comp
PickJoined(h) == IF Joined = {} \/ Pick(1..5) = 1
                 THEN LET a == Pick(XSources) IN <<a, Pick(MatesOf[a])>> ELSE Pick(Joined)
\* what can be disconnected: fields with a data flow of their own
Cuttable(p) == Field(p[1]).out /\ Field(p[1]).fam = "x"
Busy == {l \in Leaves : Unit[l] \in DOMAIN fl.conn /\ fl.conn[Unit[l]] # <<>>}
PickLeaf(h) == IF Busy # {} /\ Pick(1..3) <= 2 THEN Pick(Busy) ELSE Pick(Leaves)
Type(n) == LET s == Field(n).shape IN s[Len(s)]
PickValue(l) == IF Type(Unit[l]) = "e" THEN Pick(0..7) ELSE Pick(0..60)
Arrays == {n \in Names : Field(n).k = "sa"}
Indexed == {n \in Names : Field(n).k \in {"sa", "a"}}
AllOf == {n \in Names : Type(n) # "e" /\ Field(n).k # "s"}
PickOp(h) ==
  LET w == Pick(1..40) IN
  CASE w <= 12 -> LET l == PickLeaf(h) IN [op |-> "set", l |-> l, u |-> Unit[l], i |-> At(Unit[l], l) - 1, v |-> PickValue(l), how |-> Pick(0..5)]
    [] w <= 17 -> LET f == Pick(AllOf) IN [op |-> "setAll", f |-> f, how |-> Pick(0..2),
                     vs |-> IF Pick(1..2) = 1 THEN [i \in 1..Len(Field(f).leaves) |-> Pick(0..60)]
                            ELSE LET v == Pick(0..60) IN [i \in 1..Len(Field(f).leaves) |-> v]]
    [] w <= 26 -> LET p == PickPair(h) IN [op |-> "connect", a |-> p[1], b |-> p[2]]
    [] w <= 29 -> LET p == PickJoined(h) IN
                  IF Cuttable(p) THEN [op |-> "disconnect", a |-> p[1], b |-> p[2]]
                  ELSE [op |-> "connect", a |-> p[1], b |-> p[2]]
    [] w <= 32 -> [op |-> "push", a |-> Pick(Outs)]
    [] w <= 34 -> LET l == Pick(Forcible) IN [op |-> "force", l |-> l, v |-> Pick(0..60)]
    [] w = 35 -> [op |-> Pick({"unforce", "freeze"}), l |-> Pick(Forcible)]
    [] w = 36 -> LET l == Pick(Leaves) IN [op |-> "wrong", l |-> l, u |-> Unit[l], i |-> At(Unit[l], l) - 1]
    [] w = 37 -> [op |-> "forceWrong", l |-> Pick(Forcible)]
    [] w = 38 -> [op |-> "size", f |-> Pick(Arrays), n |-> Pick({0, 1, 3}), get |-> Pick({TRUE, FALSE})]
    [] w = 39 -> [op |-> "index", f |-> Pick(Indexed), n |-> Pick({2, 3, 1000}), get |-> Pick({TRUE, FALSE})]
    [] OTHER -> [op |-> "unlink", x |-> Pick(DOMAIN Of), y |-> Pick(DOMAIN Of)]
SimNext == Len(hist) < SimDepth /\ \E o \in {PickOp(i) : i \in 1..1} :
             Do(o) /\ hist' = Append(hist, o)
SimSpec == MCInit /\ [][SimNext]_<<vars, hist>>
Emitted == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
