-------------------------- MODULE MCPublications --------------------------
EXTENDS Publications, TLC, Json
CONSTANTS SimDepth, Mode
VARIABLE hist
MCInit == Init /\ hist = <<>>
F0 == [v |-> 3, s |-> TRUE, i |-> FALSE, o |-> FALSE]
\* small worlds: types of each sort, then what is published with them
TypeOps ==
  [op : {"addEnum"}, n : {"E"}, d : {""}, u : {"u1"}, z : {4, 3}]
  \cup [op : {"addArray"}, n : {"A", ""}, d : {""}, u : {"u1", "u2"}, item : {"Int8", "u1", "Void"}, isz : {4}, cnt : {2}, simple : BOOLEAN]
  \cup [op : {"addStruct"}, n : {"S"}, d : {""}, u : {"u2"}]
  \cup [op : {"addClass"}, n : {"C"}, d : {""}, u : {"u2", "u3"}, base : {"Void", "u2", "u3"}]
  \cup [op : {"literal"}, u : {"u1"}, n : {"L"}, d : {""}, x : {0, 1}]
  \cup [op : {"sfield"}, u : {"u2", "u3"}, n : {"x", "1"}, d : {""}, t : {"Bool", "u1", "u3"}, off : {0}, v : {3}, s : {TRUE}, i : {FALSE}, o : {TRUE}]
  \cup [op : {"field"}, via : {"uuid"}, p : {1}, n : {"f"}, d : {""}, u : {"u1", "u2", "u3"}, a : {0}, v : {3}, s : {TRUE}, i : {TRUE}, o : {FALSE}]
  \cup [op : {"unpublish"}, p : {1}]
PubOps ==
  [op : {"field"}, via : {"uuid"}, p : {1, 2, 3}, n : {"f", "g"}, d : {""}, u : {"Int8", "String8", "u1"}, a : {0}, v : {3}, s : {TRUE}, i : {TRUE}, o : {FALSE}]
  \cup [op : {"values"}, p : {1, 2}, n : {"f", "x"}, d : {""}, k : {"Int16", "None"}, cnt : {2}, a : {8}, v : {3}, s : {TRUE}, i : {FALSE}, o : {FALSE}]
  \cup [op : {"anon"}, p : {1, 2}, n : {"f", "h"}, d : {""}, c : {"array", "struct"}, a : {0}, v : {3}, s : {TRUE}, i : {FALSE}, o : {FALSE}]
  \cup [op : {"give"}, p : {1, 2}, n : {"x", "f"}] \cup [op : {"unpublish"}, p : {1, 2}]
OpOps ==
  [op : {"op"}, n : {"m", "n", ""}, d : {"a", "b"}, v : {0}]
  \cup [op : {"param"}, m : {"m"}, n : {"p", "q"}, d : {""}, t : {"Int8", "u1"}, dir : {"In", "Return"}]
  \cup [op : {"prop"}, n : {"m", "p"}, d : {""}, t : {"Int8", "u1"}, ak : {0, 1}, v : {0}]
  \cup [op : {"unpublish"}, p : {1}]
Ops == CASE Mode = "types" -> TypeOps [] Mode = "pubs" -> PubOps [] OTHER -> OpOps
Bounded == Len(types) <= 3 /\ Len(pubs) <= 3 /\ \A p \in 1..Len(pubs) : Len(pubs[p].own) <= 2
           /\ \A i \in 1..Len(types) : Len(types[i].flds) <= 1
MCNext == UNCHANGED hist /\ \E o \in Ops : Legal(o) /\ Do(o)
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
View == <<types, pubs, ops, props>>
Refused == [][~("ok" \in out'.es) => UNCHANGED View]_<<vars, hist>>
\* every field has a path of its own, and what is in a field is inside it
Paths == LET t == Tree(1) IN \A i, j \in 1..Len(t) : t[i].p = t[j].p => i = j
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Nested == LET t == Tree(1) IN
          \A i \in 2..Len(t) : t[i].p = t[i].n \/ \E j \in 1..i - 1 : Prefix(t[j].p, t[i].p)
\* what can be published can be seen entirely
Sound == \A i \in 1..Len(types) : FieldErrs("f", types[i].u) = {} =>
            Len(Nodes("f", "f", "", types[i].u, 0, F0)) <= Count(types, types[i].u)
Finite == Acyclic(types)
-----------------------------------------------------------------------------
Pick(X) == RandomElement(X)
Uuids == {"u1", "u2", "u3", "u4", "u5", "u6"}
Tn == {"A", "B", "C", "T1", "D_2"}
Bads == {"", "1a", "_x", "a b", "<null>"}
Fn == {"x", "y", "z", "f1", "g_h"}
Name(S, w) == IF w = 1 THEN Pick(Bads) ELSE Pick(S)
Desc == {"", "text"}
Nat2 == Natives \cup {"Duration", "DateTime"}
Uses(w) == IF w <= 6 THEN Pick(Nat2) ELSE IF w <= 17 THEN Pick(Uuids) ELSE Pick(Given)
Xs(u) == IF ~Known(u) THEN <<0>>
         ELSE LET k == TypeOf(u).k IN
              CASE k \in {"UInt8", "UInt16", "UInt32", "UInt64", "Bool"} -> <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 100>>
                [] k = "String8" -> <<0, 1, 2, 3, 4, 5, 6, 7, 8, 20>>
                [] OTHER -> <<-100, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 100>>
Flag(h) == Pick(1..3) = 1
OfSort(cs) == {types[i].u : i \in {i \in 1..Len(types) : types[i].c \in cs}}
Some(S) == IF S = {} THEN Pick(Uuids) ELSE Pick(S)
TypeOp(h, it) ==
  LET w == Pick(1..16) u == Pick(Uuids) n == Name(Tn, Pick(1..25)) d == Pick(Desc)
      k == IF Pick(1..8) = 1 THEN Pick(Kinds \cup {"99"}) ELSE "" IN
  CASE w = 1 -> [op |-> "addFloat", n |-> n, d |-> d, u |-> u, lo |-> Pick(-4..2), hi |-> Pick(1..8), li |-> Pick(BOOLEAN),
                 hx |-> Pick(BOOLEAN), k |-> IF k = "" THEN Pick({"Float32", "Float64"}) ELSE k]
    [] w = 2 -> [op |-> "addInt", n |-> n, d |-> d, u |-> u, lo |-> Pick(-5..4), hi |-> Pick(3..10),
                 k |-> IF k = "" THEN Pick(Ints) ELSE k]
    [] w = 3 -> [op |-> "addEnum", n |-> n, d |-> d, u |-> u, z |-> Pick({1, 2, 4, 4, 4, 8, 0, 3, -1, 16})]
    [] w \in 4..6 -> [op |-> "addArray", n |-> n, d |-> d, u |-> u, item |-> it, isz |-> IF it \in DOMAIN Width /\ d = "" THEN Width[it] ELSE Pick({8, 8, 16, 24}),
                      cnt |-> Pick({2, 3, 1, 0, -1, 2}), simple |-> Pick(BOOLEAN)]
    [] w = 7 -> [op |-> "addString", n |-> n, d |-> d, u |-> u, len |-> Pick(1..6)]
    [] w \in 8..9 -> [op |-> "addStruct", n |-> n, d |-> d, u |-> u]
    [] w = 10 -> [op |-> "addClass", n |-> n, d |-> d, u |-> u, base |-> Pick({"Void", "Void", "Int8"} \cup Uuids)]
    [] w = 11 -> [op |-> "literal", u |-> Some(OfSort({"enum"})), n |-> Pick(Tn), d |-> d, x |-> Pick(-2..5)]
    [] OTHER -> [op |-> "sfield", u |-> Some(OfSort({"struct", "class"})), n |-> IF Pick(1..40) = 1 THEN Pick({"", "1a"}) ELSE Pick(Fn), d |-> d, t |-> Uses(Pick(1..19)), off |-> 8 * Pick(0..6),
                 v |-> Pick(0..3), s |-> Pick(BOOLEAN), i |-> Flag(1), o |-> Flag(1)]
FieldOp(h) ==
  LET w == Pick(1..12) p == Pick(1..Len(pubs)) n == Name(Fn, Pick(1..25)) d == Pick(Desc)
      a == 8 * Pick(0..100) v == Pick(0..3) s == Pick(BOOLEAN) i == Flag(1) o == Flag(2) IN
  CASE w <= 6 -> LET u == Uses(Pick(1..18)) IN
                 [op |-> "field", via |-> IF u \in Natives THEN Pick({"native", "uuid", "type"}) ELSE Pick({"uuid", "type"}),
                  p |-> p, n |-> n, d |-> d, u |-> u, a |-> a, v |-> v, s |-> s, i |-> i, o |-> o]
    [] w <= 8 -> [op |-> "values", p |-> p, n |-> n, d |-> d, k |-> IF Pick(1..6) = 1 THEN Pick(Kinds \cup {"99"}) ELSE Pick(Nat2),
                  cnt |-> Pick({0, 1, 2, 3, -1}), a |-> a, v |-> v, s |-> s, i |-> i, o |-> o]
    [] w <= 10 -> [op |-> "anon", p |-> p, n |-> n, d |-> d, c |-> Pick({"array", "struct"}), a |-> 0, v |-> v, s |-> s, i |-> FALSE, o |-> FALSE]
    [] w = 11 -> [op |-> "give", p |-> p, n |-> Pick(Fn)]
    [] OTHER -> [op |-> "unpublish", p |-> IF Pick(1..3) = 1 THEN p ELSE Len(pubs)]
Mn == {"m", "n", "get_x"}
Pn == {"p", "q", "r"}
OpNames == IF ops = <<>> THEN Mn ELSE {ops[i].n : i \in 1..Len(ops)}
Member(h) ==
  LET w == Pick(1..10) d == Pick(Desc) t == Uses(Pick(1..18)) IN
  CASE w = 1 -> [op |-> "op", n |-> Name(Mn, Pick(1..20)), d |-> d, v |-> Pick(0..3)]
    [] w <= 6 -> [op |-> "param", m |-> Pick(OpNames), n |-> Name(Pn, Pick(1..10)), d |-> d, t |-> t, dir |-> Pick({"In", "Out", "InOut", "Return"})]
    [] w = 7 -> [op |-> "showParam", m |-> Pick(OpNames), n |-> Pick(Pn)]
    [] OTHER -> [op |-> "prop", n |-> Name(Pn, Pick(1..20)), d |-> d, t |-> t, ak |-> Pick(0..2), v |-> Pick(0..3)]
Look(h) ==
  LET w == Pick(1..12) p == Pick(1..Len(pubs)) IN
  CASE w = 1 -> [op |-> "getType", u |-> Pick(Uuids \cup Given)]
    [] w = 2 -> [op |-> "getKind", k |-> Pick(Kinds \cup {"99"})]
    [] w \in 3..5 -> LET u == Pick(IF w = 3 THEN Given ELSE Uuids) IN [op |-> "takes", u |-> u, xs |-> Xs(u)]
    [] w = 6 -> [op |-> "find", p |-> 1, path |-> IF Tree(1) # <<>> /\ p * Pick(1..3) # 2 THEN Pick({Tree(1)[i].p : i \in 1..Len(Tree(1))})
                                                    ELSE Pick(Fn) \o Pick({"", ".x", "[0]", "[1].x", "[0][1]", "[7]"})]
    [] w = 7 -> [op |-> "showOps"]
    [] w = 8 -> [op |-> "showProps"]
    [] OTHER -> [op |-> "tree", p |-> IF w <= 10 THEN 1 ELSE p]
PickOp(h) == LET w == Pick(1..100) early == Len(hist) < 18 IN
             IF early THEN (IF w <= 85 THEN TypeOp(1, CHOOSE x \in {Uses(Pick(1..18))} : TRUE) ELSE Look(2))
             ELSE IF w <= 15 THEN TypeOp(3, CHOOSE x \in {Uses(Pick(1..17))} : TRUE) ELSE IF w <= 50 THEN FieldOp(4) ELSE IF w <= 78 THEN Member(5) ELSE Look(6)
Calm == [op |-> "tree", p |-> 1]
SimNext == /\ Len(hist) < SimDepth
           /\ \E o \in {PickOp(i) : i \in 1..1} :
                IF Legal(o) THEN Do(o) /\ hist' = Append(hist, o)
                ELSE Do(Calm) /\ hist' = Append(hist, Calm)
SimSpec == MCInit /\ [][SimNext]_<<vars, hist>>
Emitted == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
