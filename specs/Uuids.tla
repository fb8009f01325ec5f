------------------------------- MODULE Uuids -------------------------------
(* Universally unique identifiers.  A text is a sequence of byte values; an    *)
(* identifier is the sequence of its hexadecimal digits (values 0..15).        *)
(*   reg   identifiers that were put in an ordered and in a hashed container   *)
EXTENDS Integers, Sequences

CONSTANTS Groups           \* digits in each group of the text: 8-4-4-4-12
VARIABLES reg, out
vars == <<reg, out>>
Dash == 45
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Width == Sum(Groups)
\* positions of the dashes in a text, and of the k-th digit
DashAt == {Sum(SubSeq(Groups, 1, g)) + g : g \in 1..Len(Groups) - 1}
GroupOf(k) == CHOOSE g \in 1..Len(Groups) :
                Sum(SubSeq(Groups, 1, g - 1)) < k /\ k <= Sum(SubSeq(Groups, 1, g))
DigitAt == [k \in 1..Width |-> k + GroupOf(k) - 1]
TextLen == Width + Len(Groups) - 1
Value(c) == IF c >= 48 /\ c <= 57 THEN c - 48
            ELSE IF c >= 97 /\ c <= 102 THEN c - 87
            ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 0 - 1
Char(v) == IF v < 10 THEN v + 48 ELSE v + 87
Valid(t) == /\ Len(t) = TextLen
            /\ \A i \in 1..TextLen : IF i \in DashAt THEN t[i] = Dash ELSE Value(t[i]) >= 0
Parse(t) == [k \in 1..Width |-> Value(t[DigitAt[k]])]
Print(u) == [i \in 1..TextLen |-> IF i \in DashAt THEN Dash
                                  ELSE Char(u[CHOOSE k \in 1..Width : DigitAt[k] = i])]
\* the order is that of the digits, the first one that differs decides
Less(a, b) == \E k \in 1..Width : a[k] < b[k] /\ \A j \in 1..k - 1 : a[j] = b[j]
Compare(a, b) == IF Less(a, b) THEN "lt" ELSE IF Less(b, a) THEN "gt" ELSE "eq"
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE m \in S : \A x \in S : x = m \/ Less(m, x)
                  IN <<m>> \o Sorted(S \ {m})
Init == reg = {} /\ out = [e |-> "ok", v |-> <<>>]
Ok(v) == out' = [e |-> "ok", v |-> v]
\* texts read and printed back; null is no text
Texts(o) == /\ UNCHANGED reg
            /\ Ok([i \in 1..Len(o.ts) |-> IF Valid(o.ts[i]) THEN Print(Parse(o.ts[i])) ELSE <<>>])
Null(o) == UNCHANGED reg /\ Ok(0)
Pairs(o) == /\ UNCHANGED reg
            /\ Ok([i \in 1..Len(o.ts) |-> Compare(Parse(o.ts[i][1]), Parse(o.ts[i][2]))])
Put(o) == /\ Valid(o.t)
          /\ LET u == Parse(o.t) IN
             /\ reg' = reg \cup {u}
             /\ Ok([new |-> u \notin reg,
                    all |-> [i \in 1..Len(Sorted(reg')) |-> Print(Sorted(reg')[i])]])
Drop(o) == /\ Valid(o.t)
           /\ LET u == Parse(o.t) IN
              /\ reg' = reg \ {u}
              /\ Ok([new |-> u \in reg,
                     all |-> [i \in 1..Len(Sorted(reg')) |-> Print(Sorted(reg')[i])]])
Do(o) == CASE o.op = "texts" -> Texts(o)
           [] o.op = "null" -> Null(o)
           [] o.op = "pairs" -> Pairs(o)
           [] o.op = "put" -> Put(o)
           [] o.op = "drop" -> Drop(o)
=============================================================================
