---------------------------- MODULE FixedString ----------------------------
(* Fixed-capacity strings (Xsmp::String<Nm>): a family of string objects with *)
(* given capacities, mutated and queried by one client.  A string value is a  *)
(* sequence of non-zero bytes; whatever is stored ends at the first NUL and   *)
(* is truncated to the capacity.                                              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Slots,   \* string objects
          Cap      \* Slots -> capacity

VARIABLES str,     \* Slots -> stored characters
          out      \* outcome of the last operation

vars == <<str, out>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

Take(s, n) == SubSeq(s, 1, Min(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
\* what a C string holding these bytes denotes
CStr(s) == LET Z == {i \in 1..Len(s) : s[i] = 0}
           IN  IF Z = {} THEN s
               ELSE SubSeq(s, 1, (CHOOSE i \in Z : \A j \in Z : i <= j) - 1)
Fit(s, n) == CStr(Take(s, n))

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Chars(s) == {s[i] : i \in 1..Len(s)}
NPOS == -1
OrNpos(S, Pick(_)) == IF S = {} THEN NPOS ELSE Pick(S)

OccursAt(s, t, i) == i + Len(t) <= Len(s) /\ SubSeq(s, i + 1, i + Len(t)) = t
Find(s, t, p)  == OrNpos({i \in p..Len(s) : OccursAt(s, t, i)}, SetMin)
RFind(s, t, p) == OrNpos({i \in 0..(IF p = NPOS THEN Len(s) ELSE Min(p, Len(s))) :
                            OccursAt(s, t, i)}, SetMax)
FirstOf(s, t, p, in) ==
  OrNpos({i \in p..(Len(s) - 1) : (s[i + 1] \in Chars(t)) = in}, SetMin)
LastOf(s, t, p, in) ==
  OrNpos({i \in 0..(IF p = NPOS THEN Len(s) - 1 ELSE Min(p, Len(s) - 1)) :
            (s[i + 1] \in Chars(t)) = in}, SetMax)

\* three-way lexicographic comparison of byte strings: -1, 0 or 1
Cmp(s, t) ==
  LET D == {i \in 1..Min(Len(s), Len(t)) : s[i] # t[i]}
  IN  IF D # {} THEN (IF s[SetMin(D)] < t[SetMin(D)] THEN -1 ELSE 1)
      ELSE IF Len(s) < Len(t) THEN -1 ELSE IF Len(s) > Len(t) THEN 1 ELSE 0

Rel(r, s, t) == CASE r = "eq" -> Cmp(s, t) = 0
                  [] r = "ne" -> Cmp(s, t) # 0
                  [] r = "lt" -> Cmp(s, t) < 0
                  [] r = "le" -> Cmp(s, t) <= 0
                  [] r = "gt" -> Cmp(s, t) > 0
                  [] r = "ge" -> Cmp(s, t) >= 0

Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Ok(v) == [e |-> "ok", v |-> v]
Err(x) == [e |-> x, v |-> 0]
OutOfRange == Err("out_of_range")

Blank == {9, 10, 11, 12, 13, 32}
\* first white-space separated word of a text
Word(s) ==
  LET N == {i \in 1..Len(s) : s[i] \notin Blank}
  IN  IF N = {} THEN <<>>
      ELSE LET b == SetMin(N)
               E == {i \in b..Len(s) : s[i] \in Blank}
           IN  SubSeq(s, b, IF E = {} THEN Len(s) ELSE SetMin(E) - 1)

-----------------------------------------------------------------------------
Init == str = [k \in Slots |-> <<>>] /\ out = Ok(0)

\* every mutation is observed through the contents of all the objects, so that
\* a write outside the target object is seen too
Obs(f) == Ok(f)
Set(k, v) == str' = [str EXCEPT ![k] = v] /\ out' = Obs(str')
Same == str' = str

Assign(k, s)   == Set(k, Fit(s, Cap[k]))
AssignFrom(k, j) == Set(k, Fit(str[j], Cap[k]))
Append_(k, s)  == Set(k, CStr(str[k] \o Take(s, Cap[k] - Len(str[k]))))
AppendFrom(k, j) == Append_(k, str[j])
PushBack(k, c) == Append_(k, <<c>>)
PopBack(k)     == Set(k, Take(str[k], Max(0, Len(str[k]) - 1)))
RemoveSuffix(k, n) == Set(k, Take(str[k], Max(0, Len(str[k]) - n)))
RemovePrefix(k, n) == n <= Len(str[k]) /\ Set(k, Drop(str[k], n))
Clear(k)       == Set(k, <<>>)
Swap(k, j)     == Cap[k] = Cap[j] /\
                  str' = [str EXCEPT ![k] = str[j], ![j] = str[k]] /\
                  out' = Obs(str')
StreamIn(k, s) == Set(k, Fit(Word(s), Cap[k]))
\* bounds-checked element write
PutAt(k, i, c) ==
  IF i < Len(str[k])
  THEN Set(k, CStr([str[k] EXCEPT ![i + 1] = c]))
  ELSE Same /\ out' = OutOfRange
\* unchecked element write, within the string
PutRaw(k, i, c) == i < Len(str[k]) /\ Set(k, CStr([str[k] EXCEPT ![i + 1] = c]))

At(k, i) == Same /\ out' = IF i < Len(str[k]) THEN Ok(str[k][i + 1])
                           ELSE OutOfRange
Front(k) == str[k] # <<>> /\ Same /\ out' = Ok(str[k][1])
Back(k)  == str[k] # <<>> /\ Same /\ out' = Ok(str[k][Len(str[k])])
Sizes(k) == Same /\ out' = Ok(<<Len(str[k]), Cap[k], IF str[k] = <<>> THEN 1 ELSE 0>>)
Content(k, how) == Same /\ out' = Ok(IF how = "reverse" THEN Reverse(str[k])
                                     ELSE str[k])
SubStr(k, p, n) ==
  Same /\ out' = IF p > Len(str[k]) THEN OutOfRange
                 ELSE Ok(IF n = NPOS THEN Drop(str[k], p)
                         ELSE Take(Drop(str[k], p), n))
FindResult(f, s, t, p) ==
  CASE f = "find"  -> IF p = NPOS THEN NPOS ELSE Find(s, t, p)
    [] f = "rfind" -> RFind(s, t, p)
    [] f = "find_first_of" -> FirstOf(s, t, p, TRUE)
    [] f = "find_last_of" -> LastOf(s, t, p, TRUE)
    [] f = "find_first_not_of" -> FirstOf(s, t, p, FALSE)
    [] f = "find_last_not_of" -> LastOf(s, t, p, FALSE)
Search(k, f, t, p) == Same /\ out' = Ok(FindResult(f, str[k], t, p))
Compare(k, t)      == Same /\ out' = Ok(Cmp(str[k], t))
CompareFrom(k, j)  == Same /\ out' = Ok(Cmp(str[k], str[j]))
Relation(k, r, t)  == Same /\ out' = Ok(Rel(r, str[k], t))
RelationRev(k, r, t) == Same /\ out' = Ok(Rel(r, t, str[k]))
RelationFrom(k, r, j) == Same /\ out' = Ok(Rel(r, str[k], str[j]))
Concat(k, t)       == Same /\ out' = Ok(str[k] \o t)
ConcatRev(k, t)    == Same /\ out' = Ok(t \o str[k])
ConcatFrom(k, j)   == Same /\ out' = Ok(str[k] \o str[j])
\* equal contents hash alike, whatever the capacities, and like a string view
HashAgrees(k, j)   == Same /\ out' = Ok(IF str[k] = str[j] THEN "equal" ELSE "any")
HashLikeView(k)    == Same /\ out' = Ok(TRUE)

Do(o) ==
  \/ o.op = "assign" /\ Assign(o.k, o.s)
  \/ o.op = "assign_from" /\ AssignFrom(o.k, o.j)
  \/ o.op = "append" /\ Append_(o.k, o.s)
  \/ o.op = "append_from" /\ AppendFrom(o.k, o.j)
  \/ o.op = "push_back" /\ PushBack(o.k, o.c)
  \/ o.op = "pop_back" /\ PopBack(o.k)
  \/ o.op = "remove_suffix" /\ RemoveSuffix(o.k, o.n)
  \/ o.op = "remove_prefix" /\ RemovePrefix(o.k, o.n)
  \/ o.op = "clear" /\ Clear(o.k)
  \/ o.op = "swap" /\ Swap(o.k, o.j)
  \/ o.op = "stream_in" /\ StreamIn(o.k, o.s)
  \/ o.op = "put_at" /\ PutAt(o.k, o.i, o.c)
  \/ o.op = "put_raw" /\ PutRaw(o.k, o.i, o.c)
  \/ o.op = "at" /\ At(o.k, o.i)
  \/ o.op = "front" /\ Front(o.k)
  \/ o.op = "back" /\ Back(o.k)
  \/ o.op = "sizes" /\ Sizes(o.k)
  \/ o.op = "content" /\ Content(o.k, o.how)
  \/ o.op = "substr" /\ SubStr(o.k, o.p, o.n)
  \/ o.op = "search" /\ Search(o.k, o.f, o.s, o.p)
  \/ o.op = "compare" /\ Compare(o.k, o.s)
  \/ o.op = "compare_from" /\ CompareFrom(o.k, o.j)
  \/ o.op = "rel" /\ Relation(o.k, o.r, o.s)
  \/ o.op = "rel_rev" /\ RelationRev(o.k, o.r, o.s)
  \/ o.op = "rel_from" /\ RelationFrom(o.k, o.r, o.j)
  \/ o.op = "concat" /\ Concat(o.k, o.s)
  \/ o.op = "concat_rev" /\ ConcatRev(o.k, o.s)
  \/ o.op = "concat_from" /\ ConcatFrom(o.k, o.j)
  \/ o.op = "hash" /\ HashAgrees(o.k, o.j)
  \/ o.op = "hash_view" /\ HashLikeView(o.k)

-----------------------------------------------------------------------------
(* Properties *)
WithinCapacity == \A k \in Slots : Len(str[k]) <= Cap[k]
NoEmbeddedNul  == \A k \in Slots : 0 \notin Chars(str[k])
\* comparison is a total order consistent with equality of contents
TotalOrder == \A j, k \in Slots :
                 /\ (Cmp(str[j], str[k]) = 0) = (str[j] = str[k])
                 /\ Cmp(str[j], str[k]) = -Cmp(str[k], str[j])
                 /\ Rel("le", str[j], str[k]) = ~Rel("gt", str[j], str[k])
                 /\ \A i \in Slots : Rel("le", str[i], str[j]) /\ Rel("le", str[j], str[k])
                                        => Rel("le", str[i], str[k])
\* a search result is an occurrence, and no earlier one exists
FindSound == \A j, k \in Slots :
   LET f == Find(str[j], str[k], 0) IN
   IF f = NPOS THEN \A i \in 0..Len(str[j]) : ~OccursAt(str[j], str[k], i)
   ELSE OccursAt(str[j], str[k], f) /\ f <= RFind(str[j], str[k], NPOS)
\* one operation changes one object, except swap
OneTarget == [][Cardinality({k \in Slots : str'[k] # str[k]}) <= 2]_str
=============================================================================
