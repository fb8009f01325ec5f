------------------------------ MODULE Signals ------------------------------
(* Event sources and event sinks, entry points and failures of components.     *)
(*   subs     [source -> sinks subscribed]                                     *)
(*   scripts  [sink -> what it does when it is next notified]                  *)
(*   stack    of emissions and of sinks at work                                *)
(*   objs     [component -> [kind -> names in order]]                          *)
(*   failed   failures that are failed: <<component, name>>                    *)
(*   runs     [entry point <<component, name>> -> executions]                  *)
(* The order in which the sinks are notified is open.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES sg, out
vars == <<sg, out>>

Comps == {"P", "Q"}
Kinds == {"source", "sink", "ep", "failure"}
SrcType == [s1 |-> "i", s2 |-> "i", v1 |-> "v", d1 |-> "d"]
SinkType == [i1 |-> "i", i2 |-> "i", i3 |-> "i", i4 |-> "i", w1 |-> "v", w2 |-> "v", e1 |-> "d"]
\* the component of a sink; i4 is of a class that is not of the SDK
SinkOwner == [i1 |-> "P", i2 |-> "Q", i3 |-> "Q", i4 |-> "Q", w1 |-> "P", w2 |-> "Q", e1 |-> "Q"]
Srcs == DOMAIN SrcType
Sinks == DOMAIN SinkType
-----------------------------------------------------------------------------
(* Single operations: the outcome and the state after                          *)
R(S, e) == [s |-> S, e |-> e]
Subscribe(S, a, b) ==
  IF SinkType[b] # SrcType[a] THEN R(S, "InvalidEventSink")
  ELSE IF b \in S.subs[a] THEN R(S, "EventSinkAlreadySubscribed")
  ELSE R([S EXCEPT !.subs[a] = @ \cup {b}], "ok")
\* those that are no longer subscribed are not notified any more
Drop(S, a, X) == [S EXCEPT !.subs[a] = @ \ X,
                           !.stack = [i \in 1..Len(@) |-> IF @[i].k = "em" /\ @[i].src = a
                                                           THEN [@[i] EXCEPT !.must = @ \ X] ELSE @[i]]]
Unsubscribe(S, a, b) == IF b \in S.subs[a] THEN R(Drop(S, a, {b}), "ok") ELSE R(S, "EventSinkNotSubscribed")
RECURSIVE DropFrom(_, _, _)
DropFrom(S, as, X) == IF as = {} THEN S ELSE LET a == CHOOSE y \in as : TRUE IN DropFrom(Drop(S, a, X), as \ {a}, X)
\* all sources are of component P
Unlink(S, c, to) == IF c # "P" THEN S ELSE DropFrom(S, Srcs, {b \in Sinks : SinkOwner[b] = to})
Simple(S, o) == CASE o.op = "sub" -> Subscribe(S, o.a, o.b)
                  [] o.op = "unsub" -> Unsubscribe(S, o.a, o.b)
                  [] o.op = "unlink" -> R(Unlink(S, o.c, o.to), "ok")
-----------------------------------------------------------------------------
(* Emissions, step by step.  Tokens: b an emission begins, n a sink is         *)
(* notified, a it does something with this result, e the emission ends         *)
Frame(a, snd, v, S) == [k |-> "em", src |-> a, snd |-> snd, v |-> v, must |-> S.subs[a], seen |-> {}]
Script(acts) == [k |-> "sc", acts |-> acts]
Top(S) == S.stack[Len(S.stack)]
Pop(S) == [S EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
Push(S, f) == [S EXCEPT !.stack = Append(@, f)]
\* sinks that have nothing left to do
RECURSIVE Norm(_)
Norm(S) == IF S.stack # <<>> /\ Top(S).k = "sc" /\ Top(S).acts = <<>> THEN Norm(Pop(S)) ELSE S
Value(a, v) == IF SrcType[a] = "v" THEN 0 ELSE v
Begin(S, o) == Push(S, Frame(o.a, o.snd, Value(o.a, o.v), S))
Bad(S) == [ok |-> FALSE, s |-> S]
Good(S) == [ok |-> TRUE, s |-> Norm(S)]
Step(S, t) ==
  IF S.stack = <<>> THEN Bad(S)
  ELSE LET f == Top(S) n == Len(S.stack) IN
       IF f.k = "em"
       THEN CASE t.t = "n" -> IF t.b \in S.subs[f.src] \ f.seen /\ t.snd = f.snd /\ t.v = f.v
                              THEN Good(Push([S EXCEPT !.stack[n].seen = @ \cup {t.b}, !.scripts[t.b] = <<>>],
                                             Script(S.scripts[t.b])))
                              ELSE Bad(S)
              [] t.t = "e" -> IF f.must \subseteq f.seen THEN Good(Pop(S)) ELSE Bad(S)
              [] OTHER -> Bad(S)
       ELSE LET o == Head(f.acts) T == [S EXCEPT !.stack[n].acts = Tail(@)] IN
            IF o.op = "emit" THEN IF t.t = "b" /\ t.a = o.a THEN Good(Begin(T, o)) ELSE Bad(S)
            ELSE LET r == Simple(T, o) IN IF t.t = "a" /\ t.e = r.e THEN Good(r.s) ELSE Bad(S)
RECURSIVE Follow(_, _)
Follow(S, ts) == IF ts = <<>> THEN [ok |-> S.stack = <<>>, s |-> [S EXCEPT !.stack = <<>>]]
                 ELSE LET r == Step(S, Head(ts)) IN IF r.ok THEN Follow(r.s, Tail(ts))
                                                    ELSE [ok |-> FALSE, s |-> [S EXCEPT !.stack = <<>>]]
-----------------------------------------------------------------------------
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
Make(S, o) == IF Has(S.objs[o.c][o.k], o.n) THEN R(S, "DuplicateName")
              ELSE R([S EXCEPT !.objs[o.c][o.k] = Append(@, o.n)], "ok")
Failed(S, c) == \E x \in S.failed : x[1] = c
Runs(S, c) == [i \in 1..Len(S.objs[c]["ep"]) |-> S.runs[<<c, S.objs[c]["ep"][i]>>]]
See(S, c) == [objs |-> S.objs[c], fail |-> [i \in 1..Len(S.objs[c]["failure"]) |-> <<c, S.objs[c]["failure"][i]>> \in S.failed],
              any |-> Failed(S, c), runs |-> Runs(S, c)]
Basic(S, o) ==
  CASE o.op \in {"sub", "unsub", "unlink"} -> Simple(S, o)
    [] o.op = "script" -> R([S EXCEPT !.scripts[o.b] = o.acts], "ok")
    [] o.op = "make" -> Make(S, o)
    [] o.op = "fail" -> R([S EXCEPT !.failed = @ \cup {<<o.c, o.n>>}], "ok")
    [] o.op = "unfail" -> R([S EXCEPT !.failed = @ \ {<<o.c, o.n>>}], "ok")
    [] o.op = "run" -> R([S EXCEPT !.runs[<<o.c, o.n>>] = @ + 1], "ok")
    [] o.op = "see" -> R(S, "ok")
    [] o.op = "novalue" -> R(S, "InvalidAnyType 7 for 0")   \* a value (Int32 for None) for a sink that takes none
EpNames == {"x", "y", "z"}
Empty == [subs |-> [a \in Srcs |-> {}], scripts |-> [b \in Sinks |-> <<>>], stack |-> <<>>,
          objs |-> [c \in Comps |-> [k \in Kinds |-> <<>>]], failed |-> {},
          runs |-> [x \in Comps \X EpNames |-> 0]]
Init == sg = Empty /\ out = [e |-> "ok", see |-> <<>>]
Seen(S, o) == IF o.op = "see" THEN See(S, o.c) ELSE <<>>
\* a direct notification counts as an emission to that sink alone
Start(S, o) == IF o.op = "emit" THEN Begin(S, o)
               ELSE Norm(Push([S EXCEPT !.scripts[o.b] = <<>>], Script(S.scripts[o.b])))
Whole(o) == o.op \in {"emit", "notify"}
\* what was observed of a whole operation
Observed(S, o, ts) ==
  IF o.op = "emit" THEN Follow(Start(S, o), ts)
  ELSE IF ts # <<>> /\ ts[1].t = "n" /\ ts[1].b = o.b /\ ts[1].snd = o.snd /\ ts[1].v = o.v
       THEN Follow(Start(S, o), Tail(ts))
       ELSE Bad(S)
-----------------------------------------------------------------------------
Typed == \A a \in Srcs : \A b \in sg.subs[a] : SrcType[a] = SinkType[b]
\* who must be notified and has not been is still subscribed
Pending == \A i \in 1..Len(sg.stack) :
             sg.stack[i].k = "em" => (sg.stack[i].must \ sg.stack[i].seen) \subseteq sg.subs[sg.stack[i].src]
=============================================================================
