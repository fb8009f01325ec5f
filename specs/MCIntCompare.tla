---------------------------- MODULE MCIntCompare ----------------------------
EXTENDS IntCompare, Json, IOUtils, TLC
Table == JsonDeserialize(IOEnv.TABLE)
TTypes == DOMAIN Table.lo
TLo == Table.lo
THi == Table.hi
Fns == {"equal", "not_equal", "less", "less_equal", "greater", "greater_equal"}
MCNext == \E f \in Fns, t \in Types, u \in Types :
             \E x \in Lo[t]..Hi[t], y \in Lo[u]..Hi[u] : Compare(f, t, x, u, <<y>>)
MCSpec == Init /\ [][MCNext]_vars
ASSUME Consistent
ASSUME RangeIsBounds
=============================================================================
