----------------------------- MODULE IntCompare -----------------------------
(* Value-preserving comparison of integers of different machine types.  The   *)
(* 64-bit values do not fit in TLC's integers; as only their order matters,   *)
(* a value is represented by its rank in a sorted table of landmark values    *)
(* that contains the bounds of every type and their neighbours.               *)
EXTENDS Integers, Sequences
CONSTANTS Types,      \* machine integer types
          Lo, Hi      \* Types -> rank of the smallest / largest value
VARIABLE out
vars == <<out>>
Ok(v) == [e |-> "ok", v |-> v]
InType(r, T) == Lo[T] <= r /\ r <= Hi[T]
Rel(f, x, y) == CASE f = "equal" -> x = y       [] f = "not_equal" -> x # y
                  [] f = "less" -> x < y        [] f = "less_equal" -> x <= y
                  [] f = "greater" -> x > y     [] f = "greater_equal" -> x >= y
Init == out = Ok(<<>>)
\* compares one value of type t with every value ys of type u
Compare(f, t, x, u, ys) ==
   /\ InType(x, t) /\ \A i \in 1..Len(ys) : InType(ys[i], u)
   /\ out' = Ok([i \in 1..Len(ys) |-> IF Rel(f, x, ys[i]) THEN 1 ELSE 0])
InRange(t, x, us) ==
   /\ InType(x, t)
   /\ out' = Ok([i \in 1..Len(us) |-> IF InType(x, us[i]) THEN 1 ELSE 0])
Do(o) == \/ o.op = "compare" /\ Compare(o.f, o.t, o.x, o.u, o.ys)
         \/ o.op = "in_range" /\ InRange(o.t, o.x, o.us)
-----------------------------------------------------------------------------
\* exactly one of <, =, > holds and the six relations are consistent,
\* whatever the types of the operands
Consistent == \A t, u \in Types : \A x \in Lo[t]..Hi[t], y \in Lo[u]..Hi[u] :
   /\ Rel("less", x, y) = Rel("greater", y, x)
   /\ Rel("less_equal", x, y) = ~Rel("greater", x, y)
   /\ Rel("greater_equal", x, y) = ~Rel("less", x, y)
   /\ Rel("equal", x, y) = ~Rel("not_equal", x, y)
   /\ Rel("equal", x, y) = (Rel("less_equal", x, y) /\ Rel("greater_equal", x, y))
RangeIsBounds == \A t, u \in Types : \A x \in Lo[t]..Hi[t] :
   InType(x, u) = (Rel("less_equal", Lo[u], x) /\ Rel("less_equal", x, Hi[u]))
=============================================================================
