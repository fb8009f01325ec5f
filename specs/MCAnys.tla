------------------------------- MODULE MCAnys -------------------------------
EXTENDS Anys, TLC, Json
CONSTANTS SimDepth
VARIABLE hist
Magnitudes == {{}, {0}, {1, 0}, {6}, 0..6, {7}, 0..7, {8}, {14}, 0..14, {15}, 0..15, {16}, {23, 0},
               {24, 0}, {24}, 0..23, 0..24, {30}, 0..30, {31}, 0..31, {32}, {52, 0}, {53, 0}, 0..52, 0..53,
               {62}, 0..62, {63}, 0..63, {63, 0}, 5..28, 5..29, 10..62, 9..62, {29, 3}, {12, 5, 1}}
Fractions == {{0 - 1}, {0 - 22}, {0 - 24}, {0, 0 - 22}, {0, 0 - 23}, {0, 0 - 24}, {0, 0 - 25}, {0, 0 - 23, 0 - 24},
              {0, 0 - 24, 0 - 25}, {0, 0 - 52}, {0, 0 - 51}, {0 - 28, 0 - 52}, {0 - 28, 0 - 53}, {0 - 29, 0 - 53},
              {0 - 29, 0 - 54, 0 - 60}, {0 - 27, 0 - 51}, {0 - 27, 0 - 52}, {0 - 27, 0 - 51, 0 - 52},
              (0 - 23)..0, (0 - 24)..0, (0 - 60)..(0 - 30), (0 - 52)..0, {127}, {128}, 104..127, 103..127,
              {127, 90}, {1023}, {0 - 149}, {0 - 150}, {0 - 140, 0 - 150}, {0 - 1074}, {0 - 126}, {0 - 53}, {0 - 51}}
Some(S) == {Num(n, m) : n \in BOOLEAN, m \in S}
Of(s) == CASE s = "Bool" -> {[t |-> "bool", b |-> b] : b \in BOOLEAN}
           [] s = "Char8" -> {[t |-> "char", c |-> c] : c \in {0, 7, 10, 11, 31, 32, 39, 63, 65, 92, 126, 127, 128, 200, 255}}
           [] s = "String8" -> {[t |-> "null"]} \cup {[t |-> "text", s |-> s1] : s1 \in {<<>>, <<65>>, <<65, 66>>, <<65, 67>>, <<200>>}}
           [] s \in Plain -> {v \in Some(Magnitudes) : Fits(s, v)}
           [] OTHER -> {v \in Some(Magnitudes \cup Fractions) : Exact(s, v.bits)}
                       \cup {[t |-> "nan"]} \cup {[t |-> "inf", neg |-> n] : n \in BOOLEAN}
\* every value a kind can hold among these
InKind(k) == IF k = "None" THEN {[t |-> "none"]} ELSE {v \in Of(TypeOf(k)) : TRUE}
MCInit == Init /\ hist = <<>>
MCNext == /\ UNCHANGED <<hist, out>>
          /\ \/ st["a"].k = "None" /\ \E k \in Kinds : \E v \in InKind(k) : st' = [st EXCEPT !["a"] = Var(k, v)]
             \/ st["a"].k # "None" /\ st["b"].k = "None" /\ \E k \in Kinds : \E v \in InKind(k) :
                  (k = st["a"].k \/ v = st["a"].v) /\ st' = [st EXCEPT !["b"] = Var(k, v)]
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
A == st["a"]
B == st["b"]
\* what is read as some type and can be put back is the value
Back == A.k # "None" => LET g == Get(TypeOf(A.k), A) IN
          g.ok /\ g.v = A.v /\ Put(A.k, TypeOf(A.k), g.v) = Good(A.v)
\* a conversion that succeeds keeps an integer, and a fraction up to 2^-52
Lossless == A.k # "None" => \A t \in Types \ {"Bool"} : LET g == Get(t, A) IN
          g.ok => (IF A.v.t = "num" /\ ~Exact(t, A.v.bits) /\ t \in Floats
                   THEN Close(A.v, g.v, 52) ELSE g.v = A.v)
\* into and out of a kind: the same conversions
Both == A.k # "None" => \A t \in Types : t \in Ints /\ A.k \in Plain
          => Put(t, A.k, A.v).ok = Get(t, A).ok
\* among values of one kind, equality is that of the values, nan but
Equality == A.k # "None" /\ A.k = B.k =>
              /\ Equal(A, B) = Equal(B, A)
              /\ (A.v = B.v => Equal(A, B) \/ A.v.t = "nan")
              /\ (A.k \notin Floats => (Equal(A, B) <=> A.v = B.v))
Integral == A.k \in Ints /\ B.k \in Ints => Equal(A, B) = Equal(B, A) /\ (A.v = B.v => Equal(A, B))
-----------------------------------------------------------------------------
Pick(X) == RandomElement(X)
PickV(s, h) == Pick(Of(s))
PickOp(h) ==
  LET w == Pick(1..20) x == Pick(Vars) y == Pick(Vars) s == Pick(Types)
      k == CASE Pick(1..3) = 1 -> Pick(Kinds) [] s \in {"Bool", "Char8", "String8"} -> s
             [] s \in Floats -> Pick(Floats) [] OTHER -> Pick(Ints \cup Floats) IN
  CASE w <= 5 -> [op |-> Pick({"set", "set", "make"}), x |-> x, k |-> k, s |-> s, v |-> Code(PickV(s, h))]
    [] w = 6 -> [op |-> "set", x |-> x, k |-> "String8", s |-> "String8", v |-> Code(PickV("String8", h))]
    [] w = 7 -> [op |-> "clear", x |-> x, k |-> Pick(Kinds)]
    [] w <= 10 -> [op |-> "get", x |-> x, t |-> Pick(Types)]
    [] w = 11 -> [op |-> "copy", x |-> x, y |-> y, how |-> Pick({"assign", "make"})]
    [] w = 12 -> [op |-> "move", x |-> x, y |-> y, how |-> Pick({"assign", "make"})]
    [] w = 13 -> [op |-> "swap", x |-> x, y |-> y]
    [] w = 14 -> [op |-> "text", x |-> x, y |-> y]
    [] w = 15 -> [op |-> "take", x |-> x]
    [] w <= 18 -> [op |-> "eq", x |-> x, y |-> y]
    [] w = 19 -> [op |-> "show", x |-> x]
    [] OTHER -> [op |-> "kind", x |-> x]
SimNext == /\ Len(hist) < SimDepth
           /\ \E o \in {PickOp(i) : i \in 1..1} :
                LET p == IF Legal(o) /\ (o.op # "move" \/ o.x # o.y) THEN o ELSE [op |-> "kind", x |-> "a"] IN
                Do(p) /\ hist' = Append(hist, p)
SimSpec == MCInit /\ [][SimNext]_<<vars, hist>>
Emitted == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
