---------------------------- MODULE Publications ----------------------------
(* The types of a registry, and what a component publishes with them.          *)
(*   types  the types registered by users, in order                            *)
(*   pubs   receivers: 1 is the component's, the others are the anonymous      *)
(*          arrays and structures it published; own: the fields made for it,   *)
(*          ext: the names of the fields it was given                          *)
(*   ops    published operations       props  published properties             *)
(* An outcome tells es, the acceptable results (an operation that is wrong in  *)
(* several ways may report any of them), and v, what is seen.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES types, pubs, ops, props, out
vars == <<types, pubs, ops, props, out>>
-----------------------------------------------------------------------------
\* texts
Letters == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s",
            "t", "u", "v", "w", "x", "y", "z", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L",
            "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Ch(s, i) == SubSeq(s, i, i)
Valid(n) == Len(n) > 0 /\ Ch(n, 1) \in Letters
            /\ \A i \in 2..Len(n) : Ch(n, i) \in Letters \cup Digits \cup {"_"}
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN Digit[n + 1] ELSE Dec(n \div 10) \o Digit[(n % 10) + 1]
Item(j) == "[" \o Dec(j) \o "]"
-----------------------------------------------------------------------------
\* types
Width == [Char8 |-> 1, Bool |-> 1, Int8 |-> 1, UInt8 |-> 1, Int16 |-> 2, UInt16 |-> 2, Int32 |-> 4, UInt32 |-> 4,
          Int64 |-> 8, UInt64 |-> 8, Float32 |-> 4, Float64 |-> 8, Duration |-> 8, DateTime |-> 8]
Natives == {"Char8", "Bool", "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64",
            "Float32", "Float64"}
Kinds == DOMAIN Width \cup {"String8", "None"}
Ints == {"Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64"}
Blank == [u |-> "", n |-> "", d |-> "", c |-> "prim", k |-> "None", lo |-> 0, hi |-> 0, li |-> TRUE, hx |-> TRUE,
          lits |-> <<>>, flds |-> <<>>, item |-> "", isz |-> 0, cnt |-> 0, simple |-> FALSE]
Simple(n) == [Blank EXCEPT !.u = n, !.n = n, !.k = n]
Enum(n, top) == [Blank EXCEPT !.u = n, !.n = n, !.c = "enum", !.k = "Int32",
                              !.lits = [i \in 1..top + 1 |-> [n |-> "", v |-> i - 1]]]
Tops == [PrimitiveTypeKind |-> 15, TimeKind |-> 3, ViewKind |-> 3, ParameterDirectionKind |-> 3,
         ComponentStateKind |-> 4, AccessKind |-> 2, SimulatorStateKind |-> 9]
Given == (Kinds \ {"None"}) \cup DOMAIN Tops \cup {"Void", "EventId", "LogMessageKind"}
GivenType(u) == CASE u = "Void" -> [Simple("Void") EXCEPT !.k = "None"]
                  [] u = "EventId" -> [Simple("EventId") EXCEPT !.k = "Int64"]
                  [] u = "LogMessageKind" -> [Simple("LogMessageKind") EXCEPT !.c = "int", !.k = "Int32",
                                                                              !.lo = 0, !.hi = 2147483647]
                  [] u \in DOMAIN Tops -> Enum(u, Tops[u])
                  [] OTHER -> Simple(u)
Index(u) == {i \in 1..Len(types) : types[i].u = u}
Known(u) == u \in Given \/ Index(u) # {}
TypeOf(u) == IF u \in Given THEN GivenType(u) ELSE types[CHOOSE i \in Index(u) : TRUE]
Compound(t) == t.c \in {"struct", "class"}
\* an array whose items are accessed as values
Packed(t) == t.c = "array" /\ t.simple /\ TypeOf(t.item).k # "None"
Accepts(t, x) == CASE t.c = "int" -> t.lo <= x /\ x <= t.hi
                   [] t.c = "float" -> (t.lo < x \/ (t.li /\ t.lo = x)) /\ (x < t.hi \/ (t.hx /\ t.hi = x))
                   [] t.c = "string" -> x <= t.hi
                   [] t.c = "enum" -> \E i \in 1..Len(t.lits) : t.lits[i].v = x
                   [] OTHER -> TRUE
NameErr(n) == IF Valid(n) THEN {} ELSE {"InvalidObjectName"}
\* what prevents a field of this type and name
RECURSIVE FieldErrs(_, _)
FieldErrs(n, u) ==
  IF ~Known(u) THEN {"TypeNotRegistered"} \cup NameErr(n)
  ELSE LET t == TypeOf(u) IN
       NameErr(n) \cup
       (CASE u = "Void" -> {"InvalidFieldType"}
          [] u = "String8" -> {"IncompatibleType"}
          [] t.c = "array" /\ ~Packed(t) /\ t.cnt > 0 -> FieldErrs("i", t.item)
          [] Compound(t) ->
               UNION {FieldErrs(t.flds[i].n, t.flds[i].u) : i \in 1..Len(t.flds)}
               \cup (IF \E i, j \in 1..Len(t.flds) : i < j /\ t.flds[i].n = t.flds[j].n
                     THEN {"DuplicateName"} ELSE {})
          [] OTHER -> {})
\* the field of a type at an address, and all those in it
Node(p, n, d, c, k, u, fl, z, as) ==
  [p |-> p, n |-> n, d |-> d, c |-> c, k |-> k, u |-> u, v |-> fl.v, s |-> fl.s, i |-> fl.i, o |-> fl.o,
   z |-> z, as |-> as]
Spaced(a, w, n) == [j \in 1..n |-> a + (j - 1) * w]
RECURSIVE Nodes(_, _, _, _, _, _)
Nodes(p, n, d, u, a, fl) ==
  LET t == TypeOf(u) IN
  CASE t.k # "None" -> <<Node(p, n, d, "simple", t.k, u, fl, 0, <<a>>)>>
    [] Packed(t) -> <<Node(p, n, d, "values", TypeOf(t.item).k, u, fl, t.cnt, Spaced(a, t.isz, t.cnt))>>
    [] t.c = "array" /\ ~Packed(t) ->
         <<Node(p, n, d, "array", "None", u, fl, t.cnt, <<>>)>>
         \o FlattenSeq([j \in 1..t.cnt |-> Nodes(p \o Item(j - 1), Item(j - 1), "", t.item, a + (j - 1) * t.isz, fl)])
    [] OTHER ->
         <<Node(p, n, d, "struct", "None", u, fl, Len(t.flds), <<>>)>>
         \o FlattenSeq([j \in 1..Len(t.flds) |-> LET f == t.flds[j] IN
                     Nodes(p \o "." \o f.n, f.n, f.d, f.u, a + f.off,
                           [v |-> f.v, s |-> f.s, i |-> f.i \/ fl.i, o |-> f.o \/ fl.o])])
-----------------------------------------------------------------------------
\* publications
Flags(o) == [v |-> o.v, s |-> o.s, i |-> o.i, o |-> o.o]
Live(p) == p <= Len(pubs) /\ pubs[p].live
Names(p) == {pubs[p].own[i].n : i \in 1..Len(pubs[p].own)} \cup {pubs[p].ext[i] : i \in 1..Len(pubs[p].ext)}
Dup(p, n) == IF n \in Names(p) THEN {"DuplicateName"} ELSE {}
Given32(p, n) == <<Node(p, n, "given", "simple", "Int32", "Int32",
                        [v |-> 3, s |-> TRUE, i |-> FALSE, o |-> FALSE], 0, <<-1>>)>>
Sub(p, arr, j, n) == IF arr THEN p \o Item(j) ELSE IF p = "" THEN n ELSE p \o "." \o n
RECURSIVE All(_, _, _)
Entry(p, e) ==
  CASE e.c = "type" -> [i \in 1..Len(e.t) |-> [e.t[i] EXCEPT !.p = p \o @]]
    [] e.c = "values" -> <<Node(p, e.n, e.d, "values", e.u, e.u, Flags(e), e.cnt, Spaced(e.a, Width[e.u], e.cnt))>>
    [] OTHER -> <<Node(p, e.n, e.d, e.c, "None", "none", Flags(e),
                       Len(pubs[e.sub].own) + Len(pubs[e.sub].ext), <<>>)>>
                \o All(e.sub, p, e.c = "array")
All(q, p, arr) ==
  LET own == pubs[q].own
      ext == pubs[q].ext IN
  FlattenSeq([j \in 1..Len(own) |-> Entry(Sub(p, arr, j - 1, own[j].n), own[j])])
  \o FlattenSeq([j \in 1..Len(ext) |-> Given32(Sub(p, arr, Len(own) + j - 1, ext[j]), ext[j])])
Tree(q) == All(q, "", FALSE)
-----------------------------------------------------------------------------
Ok(v) == out' = [es |-> {"ok"}, v |-> v]
Refuse(es, v) == out' = [es |-> es, v |-> v]
Held == UNCHANGED <<types, pubs, ops, props>>
Init == /\ types = <<>> /\ ops = <<>> /\ props = <<>>
        /\ pubs = <<[own |-> <<>>, ext |-> <<>>, live |-> TRUE]>>
        /\ out = [es |-> {"ok"}, v |-> <<>>]
\* a type: t, unless es
Register(o, t, es) ==
  LET all == es \cup NameErr(o.n) \cup (IF Known(o.u) THEN {"TypeAlreadyRegistered"} ELSE {}) IN
  /\ UNCHANGED <<pubs, ops, props>>
  /\ IF all # {} THEN UNCHANGED types /\ Refuse(all, <<>>)
     ELSE types' = Append(types, t) /\ Ok(<<>>)
Base(o) == [Blank EXCEPT !.u = o.u, !.n = o.n, !.d = o.d]
Bad(b, e) == IF b THEN {e} ELSE {}
AddFloat(o) == Register(o, [Base(o) EXCEPT !.c = "float", !.k = o.k, !.lo = o.lo, !.hi = o.hi, !.li = o.li, !.hx = o.hx],
                        Bad(o.k \notin {"Float32", "Float64"}, "InvalidPrimitiveType"))
AddInt(o) == Register(o, [Base(o) EXCEPT !.c = "int", !.k = o.k, !.lo = o.lo, !.hi = o.hi],
                      Bad(o.k \notin Ints, "InvalidPrimitiveType"))
Sizes == {1, 2, 4, 8}
OfSize(z) == CASE z = 1 -> "Int8" [] z = 2 -> "Int16" [] z = 4 -> "Int32" [] OTHER -> "Int64"
AddEnum(o) == Register(o, [Base(o) EXCEPT !.c = "enum", !.k = OfSize(o.z)], Bad(o.z \notin Sizes, "InvalidPrimitiveType"))
AddArray(o) == Register(o, [Base(o) EXCEPT !.c = "array", !.item = o.item, !.isz = o.isz,
                                           !.cnt = IF o.cnt < 0 THEN 0 ELSE o.cnt, !.simple = o.simple],
                        Bad(~Known(o.item), "TypeNotRegistered") \cup Bad(o.item \in {"String8", "Void"}, "IncompatibleType"))
AddString(o) == Register(o, [Base(o) EXCEPT !.c = "string", !.k = "String8", !.hi = o.len], {})
AddStruct(o) == Register(o, [Base(o) EXCEPT !.c = "struct"], {})
AddClass(o) == Register(o, [Base(o) EXCEPT !.c = "class"],
                        IF o.base = "Void" THEN {}
                        ELSE IF o.base = o.u THEN {"IncompatibleType"}
                        ELSE IF ~Known(o.base) THEN {"TypeNotRegistered"}
                        ELSE Bad(TypeOf(o.base).c # "class", "IncompatibleType"))
At(o) == CHOOSE i \in Index(o.u) : TRUE
Literal(o) ==
  LET ls == types[At(o)].lits
      same == {i \in 1..Len(ls) : ls[i].v = o.x} IN
  /\ UNCHANGED <<pubs, ops, props>>
  /\ IF same # {} THEN UNCHANGED types /\ Refuse({"DuplicateLiteral"}, <<ls[CHOOSE i \in same : TRUE].n>>)
     ELSE types' = [types EXCEPT ![At(o)].lits = Append(@, [n |-> o.n, v |-> o.x])] /\ Ok(<<>>)
AddField(o) ==
  /\ UNCHANGED <<pubs, ops, props>>
  /\ types' = [types EXCEPT ![At(o)].flds = Append(@, [n |-> o.n, d |-> o.d, u |-> o.t, off |-> o.off,
                                                      v |-> o.v, s |-> o.s, i |-> o.i, o |-> o.o])]
  /\ Ok(<<>>)
Shown(u) == LET t == TypeOf(u) IN <<t.n, t.k, t.u>>
GetType(o) == Held /\ Ok(IF Known(o.u) THEN Shown(o.u) ELSE <<"none">>)
GetKind(o) == Held /\ Ok(IF o.k = "None" THEN Shown("Void") ELSE IF o.k \in Kinds THEN Shown(o.k) ELSE <<"none">>)
\* the values a parameter of the type takes
Takes(o) == Held /\ Ok(IF ~Known(o.u) \/ TypeOf(o.u).k = "None" THEN <<"none">>
                       ELSE [i \in 1..Len(o.xs) |-> IF Accepts(TypeOf(o.u), o.xs[i]) THEN "ok" ELSE "InvalidParameterValue"])
\* fields
Made(o, c, u, cnt, sub) == [n |-> o.n, d |-> o.d, c |-> c, u |-> u, a |-> o.a, cnt |-> cnt, v |-> o.v, s |-> o.s,
                            i |-> o.i, o |-> o.o, sub |-> sub, t |-> <<>>]
\* what is made is made with the type as it is then
Typed(o) == [Made(o, "type", o.u, 0, 0) EXCEPT !.t = Nodes("", o.n, o.d, o.u, o.a, Flags(o))]
Publish(o, e, es, more) ==
  /\ UNCHANGED <<types, ops, props>>
  /\ IF es # {} THEN UNCHANGED pubs /\ Refuse(es, <<>>)
     ELSE pubs' = [pubs EXCEPT ![o.p].own = Append(@, e)] \o more /\ Ok(<<>>)
Field(o) == Publish(o, Typed(o), FieldErrs(o.n, o.u) \cup Dup(o.p, o.n), <<>>)
Values(o) == Publish(o, Made(o, "values", o.k, IF o.cnt < 0 THEN 0 ELSE o.cnt, 0),
                     NameErr(o.n) \cup Dup(o.p, o.n) \cup Bad(o.k \in {"None", "String8"}, "IncompatibleType")
                     \cup Bad(o.k \notin Kinds, "InvalidFieldType"), <<>>)
Fresh == <<[own |-> <<>>, ext |-> <<>>, live |-> TRUE]>>
Anonymous(o) == Publish(o, Made(o, o.c, "none", 0, Len(pubs) + 1), NameErr(o.n) \cup Dup(o.p, o.n), Fresh)
Give(o) ==
  /\ UNCHANGED <<types, ops, props>>
  /\ IF Dup(o.p, o.n) # {} THEN UNCHANGED pubs /\ Refuse(Dup(o.p, o.n), <<>>)
     ELSE pubs' = [pubs EXCEPT ![o.p].ext = Append(@, o.n)] /\ Ok(<<>>)
ShowTree(o) == Held /\ Ok(Tree(o.p))
Find(o) == LET t == Tree(o.p)
               w == {i \in 1..Len(t) : t[i].p = o.path} IN
           Held /\ IF w = {} THEN Refuse({"InvalidFieldName"}, <<>>)
                   ELSE LET x == t[CHOOSE i \in w : TRUE] IN Ok(<<x.n, x.c, x.k>>)
\* operations
OpAt(n) == {i \in 1..Len(ops) : ops[i].n = n}
PublishOp(o) ==
  LET x == [n |-> o.n, d |-> o.d, v |-> o.v, ps |-> <<>>, r |-> <<>>] IN
  /\ UNCHANGED <<types, pubs, props>>
  /\ IF ~Valid(o.n) THEN UNCHANGED ops /\ Refuse({"InvalidObjectName"}, <<>>)
     ELSE /\ Ok(<<>>)
          /\ IF OpAt(o.n) = {} THEN ops' = Append(ops, x)
             ELSE ops' = [ops EXCEPT ![CHOOSE i \in OpAt(o.n) : TRUE] = x]
PublishParam(o) ==
  LET i == CHOOSE i \in OpAt(o.m) : TRUE
      x == [n |-> o.n, d |-> o.d, t |-> o.t, dir |-> o.dir]
      all == ops[i].ps \o ops[i].r
      es == Bad(~Known(o.t), "TypeNotRegistered") \cup NameErr(o.n)
            \cup Bad(o.dir = "Return" /\ ops[i].r # <<>>, "InvalidParameterDirection")
            \cup Bad(\E j \in 1..Len(all) : all[j].n = o.n, "DuplicateName") IN
  /\ UNCHANGED <<types, pubs, props>>
  /\ IF es # {} THEN UNCHANGED ops /\ Refuse(es, <<>>)
     ELSE /\ Ok(<<>>)
          /\ IF o.dir = "Return" THEN ops' = [ops EXCEPT ![i].r = <<x>>]
             ELSE ops' = [ops EXCEPT ![i].ps = Append(@, x)]
ShowOps(o) == Held /\ Ok(ops)
ShowParam(o) == LET s == ops[CHOOSE i \in OpAt(o.m) : TRUE]
                    all == s.ps \o s.r
                    w == {j \in 1..Len(all) : all[j].n = o.n} IN
                Held /\ Ok(IF w = {} THEN <<"none">>
                           ELSE LET x == all[CHOOSE j \in w : TRUE] IN <<x.n, x.d, x.t, x.dir>>)
\* properties
PublishProp(o) ==
  LET x == [n |-> o.n, d |-> o.d, t |-> o.t, a |-> o.ak, v |-> o.v]
      at == {i \in 1..Len(props) : props[i].n = o.n}
      es == Bad(~Known(o.t), "TypeNotRegistered") \cup NameErr(o.n) IN
  /\ UNCHANGED <<types, pubs, ops>>
  /\ IF es # {} THEN UNCHANGED props /\ Refuse(es, <<>>)
     ELSE /\ Ok(<<>>)
          /\ IF at = {} THEN props' = Append(props, x)
             ELSE props' = [props EXCEPT ![CHOOSE i \in at : TRUE] = x]
ShowProps(o) == Held /\ Ok(props)
\* everything published is forgotten, with what was published in it
RECURSIVE Below(_)
Below(p) == {p} \cup UNION {Below(pubs[p].own[j].sub) : j \in {j \in 1..Len(pubs[p].own) : pubs[p].own[j].sub # 0}}
Unpublish(o) ==
  /\ UNCHANGED types
  /\ pubs' = [q \in 1..Len(pubs) |-> IF q = o.p THEN [own |-> <<>>, ext |-> <<>>, live |-> TRUE]
                                     ELSE IF q \in Below(o.p) THEN [own |-> <<>>, ext |-> <<>>, live |-> FALSE]
                                     ELSE pubs[q]]
  /\ IF o.p = 1 THEN ops' = <<>> /\ props' = <<>> ELSE UNCHANGED <<ops, props>>
  /\ Ok(<<>>)
-----------------------------------------------------------------------------
\* a type cannot contain itself, nor too much
Parts(ts, u) == LET w == {i \in 1..Len(ts) : ts[i].u = u} IN
                IF w = {} THEN {} ELSE LET t == ts[CHOOSE i \in w : TRUE] IN
                {t.flds[i].u : i \in 1..Len(t.flds)} \cup (IF t.c = "array" THEN {t.item} ELSE {})
RECURSIVE Reach(_, _)
Reach(ts, S) == LET T == S \cup UNION {Parts(ts, u) : u \in S} IN IF T = S THEN S ELSE Reach(ts, T)
Within(ts, u) == Reach(ts, Parts(ts, u))
Acyclic(ts) == \A i \in 1..Len(ts) : ts[i].u \notin Within(ts, ts[i].u)
RECURSIVE Count(_, _)
RECURSIVE SumOf(_, _, _)
SumOf(ts, fs, i) == IF i > Len(fs) THEN 0 ELSE Count(ts, fs[i].u) + SumOf(ts, fs, i + 1)
Count(ts, u) == LET w == {i \in 1..Len(ts) : ts[i].u = u} IN
                IF w = {} THEN 1 ELSE LET t == ts[CHOOSE i \in w : TRUE] IN
                1 + (IF t.c = "array" THEN t.cnt * Count(ts, t.item) ELSE SumOf(ts, t.flds, 1))
Small(ts) == Acyclic(ts) /\ \A i \in 1..Len(ts) : Count(ts, ts[i].u) <= 30
IsA(u, cs) == Index(u) # {} /\ TypeOf(u).c \in cs
Legal(o) ==
  CASE o.op = "addArray" -> \/ Known(o.u) \/ ~Known(o.item)
                            \/ Small(Append(types, [Base(o) EXCEPT !.c = "array", !.item = o.item,
                                                                   !.cnt = IF o.cnt < 0 THEN 0 ELSE o.cnt]))
    [] o.op = "literal" -> IsA(o.u, {"enum"})
    [] o.op = "sfield" -> IsA(o.u, {"struct", "class"})
                          /\ Small([types EXCEPT ![At(o)].flds = Append(@, [u |-> o.t])])
    [] o.op \in {"field", "values", "anon", "give", "tree", "unpublish"} -> Live(o.p)
    [] o.op = "find" -> o.p = 1
    [] o.op \in {"param", "showParam"} -> OpAt(o.m) # {}
    [] OTHER -> TRUE
Do(o) == CASE o.op = "addFloat" -> AddFloat(o)
           [] o.op = "addInt" -> AddInt(o)
           [] o.op = "addEnum" -> AddEnum(o)
           [] o.op = "addArray" -> AddArray(o)
           [] o.op = "addString" -> AddString(o)
           [] o.op = "addStruct" -> AddStruct(o)
           [] o.op = "addClass" -> AddClass(o)
           [] o.op = "literal" -> Literal(o)
           [] o.op = "sfield" -> AddField(o)
           [] o.op = "getType" -> GetType(o)
           [] o.op = "getKind" -> GetKind(o)
           [] o.op = "takes" -> Takes(o)
           [] o.op = "field" -> Field(o)
           [] o.op = "values" -> Values(o)
           [] o.op = "anon" -> Anonymous(o)
           [] o.op = "give" -> Give(o)
           [] o.op = "tree" -> ShowTree(o)
           [] o.op = "find" -> Find(o)
           [] o.op = "op" -> PublishOp(o)
           [] o.op = "param" -> PublishParam(o)
           [] o.op = "showOps" -> ShowOps(o)
           [] o.op = "showParam" -> ShowParam(o)
           [] o.op = "prop" -> PublishProp(o)
           [] o.op = "showProps" -> ShowProps(o)
           [] o.op = "unpublish" -> Unpublish(o)
\* no two fields, types, operations, properties or parameters of one name (or uuid) in one place
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
Unique == /\ Distinct([i \in 1..Len(types) |-> types[i].u])
          /\ \A p \in 1..Len(pubs) : Distinct([i \in 1..Len(pubs[p].own) |-> pubs[p].own[i].n] \o pubs[p].ext)
          /\ Distinct([i \in 1..Len(ops) |-> ops[i].n]) /\ Distinct([i \in 1..Len(props) |-> props[i].n])
          /\ \A i \in 1..Len(ops) : LET a == ops[i].ps \o ops[i].r IN Distinct([j \in 1..Len(a) |-> a[j].n])
=============================================================================
