------------------------------- MODULE Paths -------------------------------
(* Objects of a simulation, their paths, and what a path leads to.             *)
(*   objs   objects, in order of creation: [k kind, n name, p parent, c: the   *)
(*          container of a component]; 1 is the simulator                      *)
(*   refd   the components of each reference, in order                         *)
(* Names and paths are sequences of characters.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES pa, out
vars == <<pa, out>>

\* kinds: sim; node (has everything) and plain (has only published elements),
\* the components; ctn, ref; ep, src, snk, op, prop, fail; fld, str, arr: fields;
\* dstr, darr: fields whose members are published one by one
Components == {"node", "plain"}
Fields == {"fld", "str", "arr", "dstr", "darr"}
Arrays == {"arr", "darr"}
Structures == {"str", "dstr"}
Obj(k, n, p, c) == [k |-> k, n |-> n, p |-> p, c |-> c]
Null == 0
Digit(i) == SubSeq(<<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>, i + 1, i + 1)
ItemName(i) == <<"[">> \o Digit(i) \o <<"]">>

\* the members of a field of each type: <<name, type>>
RECURSIVE Grow(_, _, _, _)
Members(t) ==
  CASE t = "S" -> << <<(<<"a">>), "int">>, <<(<<"b">>), "int">> >>
    [] t = "A" -> [i \in 1..3 |-> <<ItemName(i - 1), "S">>]
    [] t = "T" -> << <<(<<"c">>), "A">>, <<(<<"a">>), "S">>, <<(<<"d">>), "list">> >>
    [] OTHER -> <<>>
KindOf(t) == CASE t \in {"int", "list"} -> "fld" [] t \in {"S", "T"} -> "str"
               [] t = "A" -> "arr" [] OTHER -> t
RECURSIVE GrowAll(_, _, _)
Grow(os, p, n, t) == GrowAll(Append(os, Obj(KindOf(t), n, p, 0)), Len(os) + 1, Members(t))
GrowAll(os, p, ms) == IF ms = <<>> THEN os
                      ELSE GrowAll(Grow(os, p, Head(ms)[1], Head(ms)[2]), p, Tail(ms))

Start == << Obj("sim", <<"s">>, Null, 0),
            Obj("ctn", <<"M", "o", "d", "e", "l", "s">>, 1, 0),
            Obj("ctn", <<"S", "e", "r", "v", "i", "c", "e", "s">>, 1, 0),
            Obj("plain", <<"r", "e", "s">>, 1, 3) >>
Empty == [objs |-> Start, refd |-> [x \in {} |-> <<>>]]
Ids(S) == 1..Len(S.objs)
Known(S, i) == i \in Ids(S)
\* the parent an object reports: that of the array for an item published on its own
RECURSIVE Up(_, _)
Up(S, i) == LET p == S.objs[i].p
            IN IF p # Null /\ S.objs[p].k = "darr" THEN Up(S, p) ELSE p
Kids(S, i) == {j \in Ids(S) : S.objs[j].p = i}
Is(S, i, ks) == Known(S, i) /\ S.objs[i].k \in ks
\* names used below an object; containers and references have names of their own
Taken(S, p) == {S.objs[j].n : j \in {m \in Kids(S, p) : S.objs[m].k \notin {"ctn", "ref"}}}
Size(S, i) == Cardinality(Kids(S, i))

-----------------------------------------------------------------------------
\* the segments of a path: separators are skipped, a segment ends before the
\* next separator, before '[' or after a run of two dots or more
RECURSIVE Skip(_, _), DotsEnd(_, _), SegEnd(_, _)
Skip(p, sep) ==
  IF p = <<>> THEN [p |-> p, sep |-> sep]
  ELSE IF Head(p) = "/" THEN Skip(Tail(p), "/")
  ELSE IF Head(p) = "." /\ (Len(p) = 1 \/ p[2] # ".") THEN Skip(Tail(p), ".")
  ELSE [p |-> p, sep |-> sep]
DotsEnd(p, i) == IF i > Len(p) \/ p[i] # "." THEN i ELSE DotsEnd(p, i + 1)
SegEnd(p, i) ==
  IF i > Len(p) \/ p[i] \in {"/", "["} THEN i
  ELSE IF p[i] = "." THEN (IF i < Len(p) /\ p[i + 1] = "." THEN DotsEnd(p, i) ELSE i)
  ELSE SegEnd(p, i + 1)
Next1(path) ==
  LET k == Skip(path, "")
      e == SegEnd(k.p, IF k.p # <<>> /\ Head(k.p) = "[" THEN 2 ELSE 1)
  IN [seg |-> SubSeq(k.p, 1, e - 1), rest |-> SubSeq(k.p, e, Len(k.p)), sep |-> k.sep]

Digits == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
             CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
               [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
RECURSIVE Value(_, _)
Value(s, v) == IF s = <<>> THEN v
               ELSE Value(Tail(s), IF v > 1000000 THEN v ELSE v * 10 + Digits[Head(s)])
\* an index between brackets, counted from the end if negative; -1: none
Index(seg, size) ==
  LET mid == SubSeq(seg, 2, Len(seg) - 1)
      neg == mid # <<>> /\ Head(mid) = "-"
      ds == IF neg THEN Tail(mid) ELSE mid
  IN IF Len(seg) < 3 \/ Head(seg) # "[" \/ seg[Len(seg)] # "]" \/ ds = <<>>
        \/ \E i \in 1..Len(ds) : ds[i] \notin DOMAIN Digits THEN -1
     ELSE LET v == Value(ds, 0)
              i == IF neg THEN size - v ELSE v
          IN IF i >= 0 /\ i < size THEN i ELSE -1
DotDot == <<".", ".">>
ByName(S, X, n) == LET Y == {j \in X : S.objs[j].n = n}
                   IN IF Y = {} THEN Null ELSE CHOOSE j \in Y : \A m \in Y : j <= m
Nth(S, i, n) == CHOOSE j \in Kids(S, i) : Cardinality({m \in Kids(S, i) : m < j}) = n
Sub(S, i, ks) == {j \in Kids(S, i) : S.objs[j].k \in ks}
SeqSet(q) == {q[i] : i \in 1..Len(q)}
\* the first reference with a component of that name
RECURSIVE InRefs(_, _, _)
InRefs(S, rs, n) ==
  IF rs = {} THEN Null
  ELSE LET r == CHOOSE x \in rs : \A y \in rs : x <= y
           hit == {i \in 1..Len(S.refd[r]) : S.objs[S.refd[r][i]].n = n}
       IN IF hit # {} THEN S.refd[r][CHOOSE i \in hit : \A j \in hit : i <= j]
          ELSE InRefs(S, rs \ {r}, n)

RECURSIVE Resolve(_, _, _)
Resolve(S, o, path) ==
  IF o = Null THEN Null
  ELSE LET x == Next1(path)
           k == S.objs[o].k
           go(t) == Resolve(S, t, x.rest)
       IN IF x.seg = <<>> THEN o
          ELSE IF x.seg = DotDot THEN go(Up(S, o))
          ELSE IF k \in Arrays
               THEN LET i == Index(x.seg, Size(S, o))
                    IN IF i = -1 THEN Null ELSE go(Nth(S, o, i))
          ELSE IF k \in Structures THEN go(ByName(S, Kids(S, o), x.seg))
          ELSE \* an underscore gives access to a container or a reference
               LET name == Tail(x.seg)
                   c == IF Head(x.seg) = "_" THEN ByName(S, Sub(S, o, {"ctn"}), name) ELSE Null
                   r == IF Head(x.seg) = "_" THEN ByName(S, Sub(S, o, {"ref"}), name) ELSE Null
               IN IF c # Null THEN go(c)
                  ELSE IF r # Null THEN go(r)
                  ELSE LET e == go(ByName(S, Kids(S, o) \ Sub(S, o, {"ctn", "ref"} \cup Components), x.seg))
                           \* components: contained, then referenced
                           m == go(ByName(S, Sub(S, o, Components), x.seg))
                       IN IF e # Null THEN e
                          ELSE IF x.sep = "." THEN Null
                          ELSE IF m # Null THEN m
                          ELSE go(InRefs(S, Sub(S, o, {"ref"}), x.seg))
\* a field of a component
GetField(S, o, path) ==
  LET x == Next1(path)
      t == IF x.seg = DotDot THEN Resolve(S, Up(S, o), x.rest)
           ELSE Resolve(S, ByName(S, Sub(S, o, Fields), x.seg), x.rest)
  IN IF x.seg # <<>> /\ Is(S, t, Fields) THEN t ELSE Null

RECURSIVE Path(_, _)
Path(S, o) ==
  LET p == Up(S, o) IN
  IF o = 1 THEN <<"/">>
  ELSE IF p = 1 THEN <<"/">> \o S.objs[o].n
  ELSE Path(S, p) \o (IF S.objs[o].k \in Components THEN <<"/">>
                      ELSE IF S.objs[p].k \in Arrays THEN <<>> ELSE <<".">>) \o S.objs[o].n
RECURSIVE Ancestor(_, _, _)
Ancestor(S, a, o) == o # Null /\ (a = o \/ Ancestor(S, a, Up(S, o)))

\* an item published on its own reports another parent than its array: its path
\* leads nowhere, and the same goes for its members
RECURSIVE Astray(_, _)
Astray(S, o) == o # Null /\ (S.objs[o].p # Up(S, o) \/ Astray(S, S.objs[o].p))

-----------------------------------------------------------------------------
R(S, e, v) == [s |-> S, e |-> e, v |-> v]
NoRef == <<>>
Make(S, o) ==
  IF ~Known(S, o.p) THEN R(S, "none", 0)
  ELSE LET pk == S.objs[o.p].k
           n == IF pk = "darr" THEN ItemName(Size(S, o.p)) ELSE o.n
           new == Len(S.objs) + 1
           add == [S EXCEPT !.objs = Append(@, Obj(o.k, n, o.p, o.c))]
           field == [S EXCEPT !.objs = Grow(@, o.p, n, o.k)]
       IN CASE n \in Taken(S, o.p) \/ (pk = "darr" /\ Size(S, o.p) > 8) -> R(S, "none", 0)
            [] o.k \in Components ->
                 IF ~Is(S, o.c, {"ctn"}) \/ S.objs[o.c].p # o.p \/ o.c = 3 THEN R(S, "none", 0)
                 ELSE IF o.k = "plain" THEN R(add, "ok", new)
                 ELSE R([add EXCEPT !.objs = @ \o << Obj("ctn", <<"A">>, new, 0), Obj("ctn", <<"b">>, new, 0),
                                                    Obj("ref", <<"R">>, new, 0), Obj("ref", <<"a">>, new, 0) >>,
                                    !.refd = (new + 3 :> NoRef) @@ (new + 4 :> NoRef) @@ @], "ok", new)
            [] o.k \in {"ep", "src", "snk", "fail"} ->
                 IF pk = "node" THEN R(add, "ok", new) ELSE R(S, "none", 0)
            [] o.k \in {"op", "prop"} ->
                 IF pk \in Components /\ o.p # 4 THEN R(add, "ok", new) ELSE R(S, "none", 0)
            [] OTHER -> IF pk \in Components \cup {"dstr", "darr"} /\ o.p # 4 THEN R(field, "ok", new)
                        ELSE R(S, "none", 0)
Basic(S, o) ==
  CASE o.op = "make" -> Make(S, o)
    [] o.op = "ref" ->
         IF ~Is(S, o.r, {"ref"}) \/ ~Is(S, o.c, Components) THEN R(S, "none", 0)
         ELSE R([S EXCEPT !.refd[o.r] = Append(@, o.c)], "ok", 0)
    [] o.op = "abs" ->
         R(S, "ok", IF o.path # <<>> /\ Head(o.path) = "/" THEN Resolve(S, 1, o.path) ELSE Null)
    [] o.op = "rel" ->
         IF o.o # Null /\ ~Is(S, o.o, Components) THEN R(S, "none", 0)
         ELSE R(S, "ok", IF o.path # <<>> /\ Head(o.path) = "/" THEN Null
                         ELSE Resolve(S, o.o, o.path))
    [] o.op = "from" -> IF o.o # Null /\ ~Known(S, o.o) THEN R(S, "none", 0)
                        ELSE R(S, "ok", Resolve(S, o.o, o.path))
    [] o.op = "field" ->
         IF ~Is(S, o.o, Components) \/ o.o = 4 THEN R(S, "none", 0)
         ELSE LET f == GetField(S, o.o, o.path)
              IN R(S, IF f = Null THEN "InvalidFieldName" ELSE "ok", f)
    [] o.op = "path" -> IF ~Known(S, o.o) THEN R(S, "none", 0)
                        ELSE R(S, "ok", Path(S, o.o))
    [] o.op = "anc" -> IF ~Known(S, o.o) \/ ~Known(S, o.a) THEN R(S, "none", 0)
                       ELSE R(S, "ok", IF Ancestor(S, o.a, o.o) THEN 1 ELSE 0)
Init == pa = Empty /\ out = [e |-> "ok", v |-> 0]
Do(o) == LET r == Basic(pa, o) IN pa' = r.s /\ out' = [e |-> r.e, v |-> r.v]

-----------------------------------------------------------------------------
\* the path of an object leads to it, from anywhere above it
Named(o) == pa.objs[o].k \notin {"ctn", "ref"} /\ ~Astray(pa, o)
RoundTrip == \A o \in Ids(pa) : Named(o) => Resolve(pa, 1, Path(pa, o)) = o
Below(a, o) == SubSeq(Path(pa, o), Len(Path(pa, a)) + 1, Len(Path(pa, o)))
Relative == \A a, o \in Ids(pa) : Named(a) /\ Named(o) /\ Ancestor(pa, a, o) =>
              Resolve(pa, a, Below(a, o)) = o
Nearest(a, o) == /\ a # o /\ pa.objs[a].k \in Components /\ Ancestor(pa, a, o)
                 /\ \A m \in Ids(pa) : Ancestor(pa, a, m) /\ Ancestor(pa, m, o) /\ m # a =>
                                      pa.objs[m].k \notin Components
FieldNames == \A a, o \in Ids(pa) : Is(pa, o, Fields) /\ Named(o) /\ Nearest(a, o) => GetField(pa, a, Below(a, o)) = o
\* ".." leads back to the parent
Back == \A o \in Ids(pa) : Resolve(pa, o, <<"/", ".", ".">>) = Up(pa, o)
=============================================================================
