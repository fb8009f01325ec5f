------------------------------ MODULE MCUuids ------------------------------
EXTENDS Uuids, FiniteSets, TLC
CONSTANTS Bytes
G == <<1, 1>>
VARIABLE s
MCInit == Init /\ s = <<>>
Grow == \E b \in Bytes : Len(s) < TextLen + 1 /\ s' = Append(s, b)
                         /\ Do([op |-> "texts", ts |-> <<s'>>])
Use == /\ Valid(s) /\ Cardinality(reg) < 2 /\ Do([op |-> "put", t |-> s])
       /\ s' = <<>>
MCNext == Grow \/ Use
MCSpec == MCInit /\ [][MCNext]_<<vars, s>>
\* printing and reading are inverse of each other, up to the case of the digits
Lower(c) == IF c >= 65 /\ c <= 70 THEN c + 32 ELSE c
Inverse == Valid(s) => /\ Parse(Print(Parse(s))) = Parse(s)
                       /\ Valid(Print(Parse(s)))
                       /\ Print(Parse(s)) = [i \in 1..Len(s) |-> Lower(s[i])]
Prefix == Valid(s) => \A n \in 0..Len(s) - 1 : ~Valid(SubSeq(s, 1, n))
\* a total order
U == reg \cup (IF Valid(s) THEN {Parse(s)} ELSE {})
Order == \A a, b \in U : /\ ~Less(a, a)
                         /\ Less(a, b) => ~Less(b, a)
                         /\ a = b \/ Less(a, b) \/ Less(b, a)
                         /\ \A c \in U : Less(a, b) /\ Less(b, c) => Less(a, c)
\* the order of the values is the order of the printed texts
RECURSIVE Lex(_, _)
Lex(x, y) == IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE
             ELSE IF Head(x) # Head(y) THEN Head(x) < Head(y) ELSE Lex(Tail(x), Tail(y))
Textual == \A a, b \in U : Less(a, b) = Lex(Print(a), Print(b))
=============================================================================
