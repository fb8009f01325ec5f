------------------------------- MODULE Names -------------------------------
(* The names of objects: a letter followed by letters, digits and '_', or an   *)
(* index "[digits]".  A name is a sequence of byte values.                     *)
(*   n   objects of each kind in the same parent                               *)
EXTENDS Integers, Sequences

VARIABLES na, out
vars == <<na, out>>
Letter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
Digit(c) == c >= 48 /\ c <= 57
Plain(s) == /\ s # <<>> /\ Letter(s[1])
            /\ \A i \in 1..Len(s) : Letter(s[i]) \/ Digit(s[i]) \/ s[i] = 95
Indexed(s) == /\ Len(s) >= 3 /\ s[1] = 91 /\ s[Len(s)] = 93
              /\ \A i \in 2..Len(s) - 1 : Digit(s[i])
Valid(s) == Plain(s) \/ Indexed(s)
Result(s) == IF Valid(s) THEN "ok" ELSE "InvalidObjectName"
Init == na = 0 /\ out = [e |-> "ok", v |-> <<>>]
\* objects of one kind are made with each of the names; null is no name
Do(o) == /\ na' = na
         /\ out' = [e |-> "ok", v |-> IF o.op = "null" THEN <<"InvalidObjectName">>
                                      ELSE [i \in 1..Len(o.ns) |-> Result(o.ns[i])]]
-----------------------------------------------------------------------------
\* the same set of names, read from left to right
RECURSIVE Run(_, _)
Step(q, c) == CASE q = "start" /\ Letter(c) -> "word"
                [] q = "start" /\ c = 91 -> "open"
                [] q = "word" /\ (Letter(c) \/ Digit(c) \/ c = 95) -> "word"
                [] q \in {"open", "index"} /\ Digit(c) -> "index"
                [] q = "index" /\ c = 93 -> "end"
                [] OTHER -> "none"
Run(q, s) == IF s = <<>> THEN q ELSE Run(Step(q, Head(s)), Tail(s))
Accepted(s) == Run("start", s) \in {"word", "end"}
=============================================================================
