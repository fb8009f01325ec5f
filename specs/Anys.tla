-------------------------------- MODULE Anys --------------------------------
(* Values of any simple type (AnySimple).  A number is exact: a sign and the   *)
(* set of the powers of two it is the sum of, so that 64-bit integers and      *)
(* floating point numbers, their ranges and their rounding are those of the    *)
(* machine.                                                                    *)
(*   st   variable -> [k: kind, v: value]                                      *)
(* Values: [t |-> "none"], [t |-> "bool", b], [t |-> "char", c] (byte),        *)
(* [t |-> "text", s] (bytes), [t |-> "null"] (no text),                        *)
(* [t |-> "num", neg, bits], [t |-> "nan"], [t |-> "inf", neg]                 *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES st, out
vars == <<st, out>>
Vars == {"a", "b", "c"}
Signed == {"Int8", "Int16", "Int32", "Int64", "Duration", "DateTime"}
Unsigned == {"UInt8", "UInt16", "UInt32", "UInt64"}
Ints == Signed \cup Unsigned
Plain == Ints \ {"Duration", "DateTime"}
Floats == {"Float32", "Float64"}
Kinds == Ints \cup Floats \cup {"None", "Bool", "Char8", "String8"}
\* the C++ types of values; a duration and a date are 64-bit integers
Types == Plain \cup Floats \cup {"Bool", "Char8", "String8"}
TypeOf(k) == IF k \in {"Duration", "DateTime"} THEN "Int64" ELSE k
Width(k) == CASE k \in {"Int8", "UInt8"} -> 8 [] k \in {"Int16", "UInt16"} -> 16
              [] k \in {"Int32", "UInt32"} -> 32 [] OTHER -> 64
Max(S) == CHOOSE i \in S : \A j \in S : j <= i
Min(S) == CHOOSE i \in S : \A j \in S : i <= j
\* magnitudes
Less(A, B) == A # B /\ Max((A \ B) \cup (B \ A)) \in B
RECURSIVE Free(_, _)
Free(K, p) == IF p \in K THEN Free(K, p + 1) ELSE p
AddBit(K, p) == LET q == Free(K, p) IN (K \ (p..q)) \cup {q}
\* 2^p - T, for 0 < T < 2^p
Comp(T, p) == {Min(T)} \cup {i \in Min(T) + 1..p - 1 : i \notin T}
Num(neg, B) == [t |-> "num", neg |-> neg /\ B # {}, bits |-> B]
Fits(k, v) == /\ v.t = "num"
              /\ \A i \in v.bits : i >= 0
              /\ IF k \in Signed
                 THEN \/ \A i \in v.bits : i <= Width(k) - 2
                      \/ v.neg /\ v.bits = {Width(k) - 1}
                 ELSE ~v.neg /\ \A i \in v.bits : i <= Width(k) - 1
Digits(k) == IF k = "Float32" THEN 24 ELSE 53
Lowest(k) == IF k = "Float32" THEN 0 - 149 ELSE 0 - 1074
Highest(k) == IF k = "Float32" THEN 127 ELSE 1023
Exact(k, B) == \/ B = {}
               \/ Max(B) - Min(B) < Digits(k) /\ Min(B) >= Lowest(k) /\ Max(B) <= Highest(k)
\* the closest number of 24 digits, and how far it is
Round(B) ==
  IF B = {} THEN [bits |-> {}, err |-> {}]
  ELSE LET p == Max({Max(B) - 23, 0 - 149})
           tail == {i \in B : i < p}
           keep == B \ tail
           up == tail # {} /\ (Less({p - 1}, tail) \/ (tail = {p - 1} /\ p \in keep)) IN
       [bits |-> IF up THEN AddBit(keep, p) ELSE keep,
        err |-> IF up THEN Comp(tail, p) ELSE tail]
Tiny(E, t) == E = {} \/ Max(E) < 0 - t \/ E = {0 - t}
Narrow(v) == LET r == Round(v.bits) IN
             [ok |-> Tiny(r.err, 52) /\ (r.bits = {} \/ Max(r.bits) <= 127), v |-> Num(v.neg, r.bits)]
Bad == [ok |-> FALSE, v |-> [t |-> "none"]]
Good(v) == [ok |-> TRUE, v |-> v]
\* a value of C++ type s put in a variable of kind k
Put(k, s, v) ==
  CASE s \in {"Bool", "Char8", "String8"} -> IF k = s THEN Good(v) ELSE Bad
    [] s \in Plain -> IF k \in Ints THEN (IF Fits(k, v) THEN Good(v) ELSE Bad)
                      ELSE IF k \in Floats THEN (IF Exact(k, v.bits) THEN Good(v) ELSE Bad)
                      ELSE Bad
    [] s = "Float32" -> IF k \in Floats THEN Good(v) ELSE Bad
    [] s = "Float64" -> IF k = "Float64" THEN Good(v)
                        ELSE IF k # "Float32" THEN Bad
                        ELSE IF v.t # "num" THEN Good(v) ELSE Narrow(v)
\* the value of a variable x as C++ type t
Truth(x) == CASE x.k = "Bool" -> x.v.b
              [] x.k = "Char8" -> x.v.c # 0
              [] x.k = "String8" -> x.v.t # "null"
              [] OTHER -> x.v.bits # {}
Get(t, x) ==
  CASE t = "Bool" -> IF x.k \in Ints \cup {"Bool", "Char8", "String8"}
                     THEN Good([t |-> "bool", b |-> Truth(x)]) ELSE Bad
    [] t \in {"Char8", "String8"} -> IF x.k = t THEN Good(x.v) ELSE Bad
    [] t \in Plain -> IF x.k \in Ints /\ Fits(t, x.v) THEN Good(x.v) ELSE Bad
    [] t \in Floats ->
         IF x.k \in Plain THEN (IF Exact(t, x.v.bits) THEN Good(x.v) ELSE Bad)
         ELSE IF x.k \notin Floats THEN Bad
         ELSE IF t = "Float64" \/ x.k = "Float32" \/ x.v.t # "num" THEN Good(x.v)
         ELSE Narrow(x.v)
\* floating point values that are close
Close(a, b, t) ==
  IF a.t # b.t THEN FALSE
  ELSE IF a.t = "nan" THEN FALSE
  ELSE IF a.t = "inf" THEN a.neg = b.neg
  ELSE IF a.bits = b.bits /\ a.neg = b.neg THEN TRUE
  ELSE IF a.neg = b.neg
  THEN LET A == a.bits \ b.bits
           B == b.bits \ a.bits
           big == IF Less(A, B) THEN B ELSE A
           low == IF Less(A, B) THEN A ELSE B IN
       ~Less(AddBit(low, 0 - t), big)
  ELSE IF a.bits = {} \/ b.bits = {} THEN Tiny(a.bits \cup b.bits, t)
  ELSE Max(a.bits) < 0 - t /\ Max(b.bits) < 0 - t /\ ~Less(Comp(b.bits, 0 - t), a.bits)
\* the right one is converted to the kind of the left one
Equal(x, y) ==
  IF x.k = "None" THEN y.k = "None"
  ELSE LET g == Get(TypeOf(x.k), y) IN
       /\ g.ok
       /\ CASE x.k = "Float32" -> Close(x.v, g.v, 23)
            [] x.k = "Float64" -> Close(x.v, g.v, 52)
            [] OTHER -> x.v = g.v
-----------------------------------------------------------------------------
\* values in operations and outcomes are sequences of integers
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE <<Min(S)>> \o Sorted(S \ {Min(S)})
Flag(b) == IF b THEN 1 ELSE 0
Code(v) == CASE v.t = "none" -> <<0>>
             [] v.t = "bool" -> <<1, Flag(v.b)>>
             [] v.t = "char" -> <<2, v.c>>
             [] v.t = "text" -> <<3>> \o v.s
             [] v.t = "null" -> <<4>>
             [] v.t = "num" -> <<5, Flag(v.neg)>> \o Sorted(v.bits)
             [] v.t = "nan" -> <<6>>
             [] v.t = "inf" -> <<7, Flag(v.neg)>>
Tail1(s, i) == SubSeq(s, i, Len(s))
Value(c) == CASE c[1] = 0 -> [t |-> "none"]
              [] c[1] = 1 -> [t |-> "bool", b |-> c[2] = 1]
              [] c[1] = 2 -> [t |-> "char", c |-> c[2]]
              [] c[1] = 3 -> [t |-> "text", s |-> Tail1(c, 2)]
              [] c[1] = 4 -> [t |-> "null"]
              [] c[1] = 5 -> Num(c[2] = 1, {c[i] : i \in 3..Len(c)})
              [] c[1] = 6 -> [t |-> "nan"]
              [] c[1] = 7 -> [t |-> "inf", neg |-> c[2] = 1]
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE Octal(_)
Octal(n) == IF n < 8 THEN <<48 + n>> ELSE Octal(n \div 8) \o <<48 + (n % 8)>>
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET i == Min(S) IN 2 ^ i + Sum(S \ {i})
Escaped == [c \in {39, 63, 92, 7, 8, 12, 10, 13, 9, 11} |->
              CASE c = 39 -> 39 [] c = 63 -> 63 [] c = 92 -> 92 [] c = 7 -> 97 [] c = 8 -> 98
                [] c = 12 -> 102 [] c = 10 -> 110 [] c = 13 -> 114 [] c = 9 -> 116 [] c = 11 -> 118]
Suffix(k) == (IF k \in Signed THEN <<105>> ELSE <<117>>) \o
             (CASE Width(k) = 8 -> <<56>> [] Width(k) = 16 -> <<49, 54>>
                [] Width(k) = 32 -> <<51, 50>> [] OTHER -> <<54, 52>>)
Printable(x) == \/ x.k \in {"None", "Bool", "Char8", "String8"}
                \/ x.k \in Plain /\ \A i \in x.v.bits : i <= 29
Shown(x) == CASE x.k = "None" -> <<78, 111, 110, 101>>
              [] x.k = "Bool" -> IF x.v.b THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
              [] x.k = "String8" -> <<34>> \o (IF x.v.t = "null" THEN <<>> ELSE x.v.s) \o <<34>>
              [] x.k = "Char8" -> <<39>> \o (IF x.v.c \in DOMAIN Escaped THEN <<92, Escaped[x.v.c]>>
                                             ELSE IF x.v.c \in 32..126 THEN <<x.v.c>>
                                             ELSE <<92>> \o Octal(x.v.c)) \o <<39>>
              [] OTHER -> (IF x.v.neg THEN <<45>> ELSE <<>>) \o Decimal(Sum(x.v.bits)) \o Suffix(x.k)
-----------------------------------------------------------------------------
Zero(k) == CASE k = "None" -> [t |-> "none"]
             [] k = "Bool" -> [t |-> "bool", b |-> FALSE]
             [] k = "Char8" -> [t |-> "char", c |-> 0]
             [] k = "String8" -> [t |-> "null"]
             [] OTHER -> Num(FALSE, {})
Var(k, v) == [k |-> k, v |-> v]
Nothing == Var("None", [t |-> "none"])
Init == st = [x \in Vars |-> Nothing] /\ out = [e |-> "ok", v |-> <<>>]
R(e, v) == out' = [e |-> e, v |-> v]
\* a variable as it is after an operation
See(x) == st'[x].k
\* a refused value leaves the variable, but for a text, which is lost
Refused(x) == IF x.k = "String8" THEN Var("String8", [t |-> "null"]) ELSE x
\* the kind given and the one expected
Wrong(k, t) == "InvalidAnyType " \o k \o " for " \o t
Set(o) == LET p == Put(o.k, o.s, Value(o.v)) IN
          IF p.ok THEN st' = [st EXCEPT ![o.x] = Var(o.k, p.v)] /\ R("ok", Code(p.v))
          ELSE st' = [st EXCEPT ![o.x] = Refused(@)] /\ R("InvalidAnyType", Code(Refused(st[o.x]).v))
\* a variable made with a value, that replaces the one there was
Make(o) == LET p == Put(o.k, o.s, Value(o.v)) IN
           IF p.ok THEN st' = [st EXCEPT ![o.x] = Var(o.k, p.v)] /\ R("ok", Code(p.v))
           ELSE UNCHANGED st /\ R("InvalidAnyType", Code(st[o.x].v))
Clear(o) == st' = [st EXCEPT ![o.x] = Var(o.k, Zero(o.k))] /\ R("ok", Code(Zero(o.k)))
Read(o) == LET g == Get(o.t, st[o.x]) IN
           UNCHANGED st /\ (IF g.ok THEN R("ok", Code(g.v)) ELSE R(Wrong(st[o.x].k, o.t), <<>>))
Reads(o) == UNCHANGED st /\ R("ok", [i \in 1..Len(o.ts) |-> LET g == Get(o.ts[i], st[o.x]) IN
                                     IF g.ok THEN Code(g.v) ELSE <<>>])
Copy(o) == st' = [st EXCEPT ![o.x] = st[o.y]] /\ R("ok", Code(st[o.y].v))
Move(o) == IF o.x = o.y THEN UNCHANGED st /\ R("ok", Code(st[o.x].v))
           ELSE st' = [st EXCEPT ![o.x] = st[o.y], ![o.y] = Nothing] /\ R("ok", Code(st[o.y].v))
Swap(o) == st' = [st EXCEPT ![o.x] = st[o.y], ![o.y] = st[o.x]] /\ R("ok", Code(st[o.y].v))
\* the text of a variable given to itself or another one
Text(o) == IF st[o.y].k # "String8" THEN UNCHANGED st /\ R(Wrong(st[o.y].k, "String8"), <<>>)
           ELSE st' = [st EXCEPT ![o.x] = st[o.y]] /\ R("ok", Code(st[o.y].v))
\* the text is taken out
Take(o) == IF st[o.x].k # "String8" THEN UNCHANGED st /\ R(Wrong(st[o.x].k, "String8"), <<>>)
           ELSE st' = [st EXCEPT ![o.x] = Var("String8", [t |-> "null"])] /\ R("ok", Code(st[o.x].v))
Compare(o) == UNCHANGED st /\ R("ok", <<Flag(Equal(st[o.x], st[o.y]))>>)
Show(o) == UNCHANGED st /\ R("ok", IF Printable(st[o.x]) THEN Shown(st[o.x]) ELSE <<>>)
Kind(o) == UNCHANGED st /\ R(st[o.x].k, <<>>)
\* values a type can have
Legal(o) == CASE o.op \in {"set", "make"} ->
                   LET v == Value(o.v) IN
                   CASE o.s = "Bool" -> v.t = "bool" [] o.s = "Char8" -> v.t = "char"
                     [] o.s = "String8" -> v.t \in {"text", "null"}
                     [] o.s \in Plain -> Fits(o.s, v)
                     [] OTHER -> v.t \in {"nan", "inf"} \/ (v.t = "num" /\ Exact(o.s, v.bits))
              [] OTHER -> TRUE
Do(o) == CASE o.op = "set" -> Set(o)
           [] o.op = "make" -> Make(o)
           [] o.op = "clear" -> Clear(o)
           [] o.op = "get" -> Read(o)
           [] o.op = "gets" -> Reads(o)
           [] o.op = "copy" -> Copy(o)
           [] o.op = "move" -> Move(o)
           [] o.op = "swap" -> Swap(o)
           [] o.op = "text" -> Text(o)
           [] o.op = "take" -> Take(o)
           [] o.op = "eq" -> Compare(o)
           [] o.op = "show" -> Show(o)
           [] o.op = "kind" -> Kind(o)
\* a variable holds what its kind can hold
Holds(x) == CASE x.k = "None" -> x.v.t = "none" [] x.k = "Bool" -> x.v.t = "bool"
              [] x.k = "Char8" -> x.v.t = "char" [] x.k = "String8" -> x.v.t \in {"text", "null"}
              [] x.k \in Ints -> Fits(x.k, x.v)
              [] OTHER -> x.v.t \in {"nan", "inf"} \/ (x.v.t = "num" /\ Exact(x.k, x.v.bits))
Typed == \A x \in Vars : Holds(st[x])
=============================================================================
