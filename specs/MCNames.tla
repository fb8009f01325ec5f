------------------------------ MODULE MCNames ------------------------------
EXTENDS Names
CONSTANTS Bytes, MaxLen
VARIABLE s
MCInit == Init /\ s = <<>>
MCNext == \E b \in Bytes : Len(s) < MaxLen /\ s' = Append(s, b) /\ Do([op |-> "name", ns |-> <<s'>>])
MCSpec == MCInit /\ [][MCNext]_<<vars, s>>
Agree == Valid(s) = Accepted(s)
\* a prefix of a valid word is valid, and no name is an index and a word
Prefixes == Plain(s) /\ Len(s) > 1 => Plain(SubSeq(s, 1, Len(s) - 1))
Exclusive == ~(Plain(s) /\ Indexed(s))
=============================================================================
