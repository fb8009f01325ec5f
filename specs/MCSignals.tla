----------------------------- MODULE MCSignals -----------------------------
EXTENDS Signals, Json
CONSTANTS SimDepth, MaxScripts, First
VARIABLES hist, told   \* told: notifications of each emission under way
MCInit == Init /\ hist = <<>> /\ told = <<>>
MCSrcs == {"s1", "s2"}
MCSinks == {"i1", "i2", "i4"}
Acts == {[op |-> "sub", a |-> "s1", b |-> "i2"], [op |-> "unsub", a |-> "s1", b |-> "i2"],
         [op |-> "unsub", a |-> "s1", b |-> "i1"], [op |-> "emit", a |-> "s2", snd |-> "P", v |-> 1],
         [op |-> "unlink", c |-> "P", to |-> "Q"]}
Tokens(S) == [t : {"n"}, b : MCSinks, snd : {"P"}, v : {1}] \cup [t : {"e"}] \cup
             [t : {"b"}, a : MCSrcs] \cup
             [t : {"a"}, e : {"ok", "EventSinkAlreadySubscribed", "EventSinkNotSubscribed"}]
Depth(S) == Cardinality({i \in 1..Len(S.stack) : S.stack[i].k = "em"})
\* notifications of an emission are counted
Count(t, S) == CASE t.t = "b" -> Append(told, [x \in MCSinks |-> 0])
                 [] t.t = "e" -> SubSeq(told, 1, Len(told) - 1)
                 [] t.t = "n" -> [told EXCEPT ![Len(told)] = [@ EXCEPT ![t.b] = @ + 1]]
                 [] OTHER -> told
MCNext ==
  /\ hist' = hist /\ out' = out
  /\ IF sg.stack = <<>>
     THEN \/ \E a \in MCSrcs, b \in MCSinks : sg' = Subscribe(sg, a, b).s /\ told' = told
          \/ \E b \in MCSinks, x \in Acts, y \in Acts :
               sg' = [sg EXCEPT !.scripts[b] = <<x, y>>] /\ told' = told
          \/ sg' = Begin(sg, [op |-> "emit", a |-> "s1", snd |-> "P", v |-> 1]) /\ told' = <<[x \in MCSinks |-> 0]>>
     ELSE \E t \in Tokens(sg) : LET r == Step(sg, t) IN r.ok /\ sg' = r.s /\ told' = Count(t, sg)
MCSpec == MCInit /\ [][MCNext]_<<vars, hist, told>>
Bounded == Cardinality({b \in Sinks : sg.scripts[b] # <<>>}) <= MaxScripts /\ Depth(sg) <= 3
View == <<sg, told>>
Once == \A i \in 1..Len(told) : \A x \in MCSinks : told[i][x] <= 1
\* no emission gets stuck
Runs1 == sg.stack # <<>> => \E t \in Tokens(sg) : Step(sg, t).ok
-----------------------------------------------------------------------------
Pick(X) == RandomElement(X)
PickAct(S, h) ==
  LET w == Pick(1..10) a == Pick(Srcs) B == {b \in Sinks : SinkType[b] = SrcType[a]} IN
  CASE w <= 3 -> [op |-> "sub", a |-> a, b |-> Pick(B)]
    [] w <= 6 -> [op |-> "unsub", a |-> a, b |-> Pick(B)]
    [] w <= 9 -> [op |-> "emit", a |-> a, snd |-> Pick({"P", "Q", "none"}), v |-> Pick(0..99)]
    [] OTHER -> [op |-> "unlink", c |-> Pick(Comps), to |-> Pick(Comps)]
PickOp(h) ==
  LET w == Pick(First..40) c == Pick(Comps) IN
  CASE w <= 8 -> LET a == Pick(Srcs) B == {b \in Sinks : SinkType[b] = SrcType[a]} IN
                 [op |-> Pick({"sub", "sub", "unsub"}), a |-> a, b |-> IF Pick(1..6) = 1 THEN Pick(Sinks) ELSE Pick(B)]
    [] w <= 16 -> [op |-> "script", b |-> Pick(Sinks), acts |-> [i \in 1..Pick(1..3) |-> PickAct(sg, h)]]
    [] w <= 27 -> [op |-> "emit", a |-> Pick(Srcs), snd |-> Pick({"P", "Q", "none"}), v |-> Pick(0..99)]
    [] w <= 29 -> LET b == Pick(Sinks) IN [op |-> "notify", b |-> b, snd |-> Pick({"P", "Q", "none"}),
                                           v |-> IF SinkType[b] = "v" THEN 0 ELSE Pick(0..99)]
    [] w = 30 -> [op |-> "novalue", b |-> Pick({b \in Sinks : SinkType[b] = "v"})]
    [] w = 31 -> [op |-> "unlink", c |-> c, to |-> Pick(Comps)]
    [] w <= 34 -> [op |-> "make", c |-> c, k |-> Pick(Kinds), n |-> Pick(EpNames)]
    [] w <= 36 -> IF sg.objs[c]["failure"] = <<>> THEN [op |-> "see", c |-> c]
                  ELSE [op |-> Pick({"fail", "unfail"}), c |-> c, n |-> sg.objs[c]["failure"][Pick(1..Len(sg.objs[c]["failure"]))]]
    [] w <= 38 -> IF sg.objs[c]["ep"] = <<>> THEN [op |-> "see", c |-> c]
                  ELSE [op |-> "run", c |-> c, n |-> sg.objs[c]["ep"][Pick(1..Len(sg.objs[c]["ep"]))]]
    [] OTHER -> [op |-> "see", c |-> c]
\* any order will do to go on: the first sink that may be notified
RECURSIVE Complete(_)
FirstToken(S) ==
  LET f == Top(S) IN
  IF f.k = "em" THEN LET X == f.must \ f.seen IN
       IF X = {} THEN [t |-> "e"] ELSE [t |-> "n", b |-> CHOOSE x \in X : TRUE, snd |-> f.snd, v |-> f.v]
  ELSE LET o == Head(f.acts) IN
       IF o.op = "emit" THEN [t |-> "b", a |-> o.a] ELSE [t |-> "a", e |-> Simple(S, o).e]
Complete(S) == IF S.stack = <<>> THEN S ELSE Complete(Step(S, FirstToken(S)).s)
SimNext == Len(hist) < SimDepth /\ UNCHANGED <<out, told>> /\ \E o \in {PickOp(i) : i \in 1..1} :
             /\ sg' = IF Whole(o) THEN Complete(Start(sg, o)) ELSE Basic(sg, o).s
             /\ hist' = Append(hist, o)
SimSpec == MCInit /\ [][SimNext]_<<vars, hist, told>>
Emitted == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
