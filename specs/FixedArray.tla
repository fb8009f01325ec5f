----------------------------- MODULE FixedArray -----------------------------
(* Fixed-size arrays (Xsmp::Array<T, N>): every object has exactly N elements *)
(* at all times; they are read and written by index, by iterator, wholesale,  *)
(* and compared lexicographically.                                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slots, Size, Default
VARIABLES arr, out
vars == <<arr, out>>

Ok(v) == [e |-> "ok", v |-> v]
OutOfRange == [e |-> "out_of_range", v |-> 0]
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Cmp(s, t) == LET D == {i \in 1..Len(s) : s[i] # t[i]}
             IN  IF D = {} THEN 0
                 ELSE IF s[SetMin(D)] < t[SetMin(D)] THEN -1 ELSE 1
Rel(r, s, t) == CASE r = "eq" -> s = t       [] r = "ne" -> s # t
                  [] r = "lt" -> Cmp(s, t) < 0  [] r = "le" -> Cmp(s, t) <= 0
                  [] r = "gt" -> Cmp(s, t) > 0  [] r = "ge" -> Cmp(s, t) >= 0

Init == arr = [k \in Slots |-> [i \in 1..Size[k] |-> Default]] /\ out = Ok(0)
Upd(f) == arr' = f /\ out' = Ok(f)
Same == arr' = arr

Fill(k, x)    == Upd([arr EXCEPT ![k] = [i \in 1..Size[k] |-> x]])
\* aggregate initialisation: missing elements are value-initialised
Build(k, s)   == Len(s) <= Size[k] /\
                 Upd([arr EXCEPT ![k] = [i \in 1..Size[k] |->
                                           IF i <= Len(s) THEN s[i] ELSE 0]])
PutAt(k, i, x) == IF i < Size[k] THEN Upd([arr EXCEPT ![k][i + 1] = x])
                  ELSE Same /\ out' = OutOfRange
PutRaw(k, i, x) == i < Size[k] /\ Upd([arr EXCEPT ![k][i + 1] = x])
At(k, i)      == Same /\ out' = IF i < Size[k] THEN Ok(arr[k][i + 1])
                                ELSE OutOfRange
Get(k, i)     == i < Size[k] /\ Same /\ out' = Ok(arr[k][i + 1])
Content(k, how) == Same /\ out' = Ok(IF how = "reverse" THEN Reverse(arr[k])
                                     ELSE arr[k])
Sizes(k)      == Same /\ out' = Ok(<<Size[k], Size[k], IF Size[k] = 0 THEN 1 ELSE 0>>)
Copy(k, j)    == Size[k] = Size[j] /\ Upd([arr EXCEPT ![k] = arr[j]])
Swap(k, j)    == Size[k] = Size[j] /\ Upd([arr EXCEPT ![k] = arr[j], ![j] = arr[k]])
Relation(k, r, j) == Size[k] = Size[j] /\ Same /\ out' = Ok(Rel(r, arr[k], arr[j]))

Do(o) == \/ o.op = "fill" /\ Fill(o.k, o.x)
         \/ o.op = "build" /\ Build(o.k, o.s)
         \/ o.op = "put_at" /\ PutAt(o.k, o.i, o.x)
         \/ o.op = "put_raw" /\ PutRaw(o.k, o.i, o.x)
         \/ o.op = "at" /\ At(o.k, o.i)
         \/ o.op = "get" /\ Get(o.k, o.i)
         \/ o.op = "content" /\ Content(o.k, o.how)
         \/ o.op = "sizes" /\ Sizes(o.k)
         \/ o.op = "copy" /\ Copy(o.k, o.j)
         \/ o.op = "swap" /\ Swap(o.k, o.j)
         \/ o.op = "rel" /\ Relation(o.k, o.r, o.j)
-----------------------------------------------------------------------------
FixedSize == \A k \in Slots : Len(arr[k]) = Size[k]
TotalOrder == \A i, j, k \in Slots : Size[i] = Size[j] /\ Size[j] = Size[k] =>
   /\ Cmp(arr[i], arr[j]) = -Cmp(arr[j], arr[i])
   /\ (Rel("le", arr[i], arr[j]) /\ Rel("le", arr[j], arr[k])) => Rel("le", arr[i], arr[k])
   /\ Rel("eq", arr[i], arr[j]) = (Rel("le", arr[i], arr[j]) /\ Rel("ge", arr[i], arr[j]))
Local == [][Cardinality({k \in Slots : arr'[k] # arr[k]}) <= 2]_arr
=============================================================================
