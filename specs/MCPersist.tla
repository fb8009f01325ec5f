----------------------------- MODULE MCPersist -----------------------------
EXTENDS Persist, Json
CONSTANTS SimDepth, T, N
VARIABLE hist
Item == [op : T, n : 0..1]
Seqs(X, n) == UNION {[1..i -> X] : i \in 0..n}
MCInit == Init /\ hist = <<>>
MCNext == \E o \in [op : {"store"}, k : {1}, items : Seqs(Item, N)] \cup
                   [op : {"restore"}, k : {1}, types : Seqs(T, N), into : {0}] \cup
                   [op : {"cut"}, k : {1}, j : 1..N, r : {1}] \cup [op : {"delete"}, k : {1}] :
             Do(o) /\ hist' = hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
View == pe
Nothing == NoMore(T)
Pick(X) == RandomElement(X)
PickItem(h) == [op |-> Pick(T), n |-> Pick(0..20)]
PickFile(h) == IF DOMAIN pe = {} \/ Pick(1..12) = 1 THEN Pick(1..3) ELSE Pick(DOMAIN pe)
PickTypes(h, F) ==
  LET n == Pick(0..Len(F)) ts == SubSeq(Types(F), 1, n) w == Pick(1..10)
      \* a cut value is asked for with some type
      known == [i \in 1..n |-> IF ts[i] = "cut" THEN Pick(T) ELSE ts[i]]
  IN CASE w <= 6 -> known
       [] w = 7 /\ n > 0 -> [known EXCEPT ![Pick(1..n)] = Pick(T)]
       [] OTHER -> [i \in 1..Len(F) |-> IF Types(F)[i] = "cut" THEN Pick(T) ELSE Types(F)[i]] \o
                   IF Pick(1..2) = 1 THEN <<>> ELSE <<Pick(T)>>
PickOp(h) ==
  LET w == Pick(1..20) k == PickFile(h) IN
  CASE w <= 7 -> [op |-> "store", k |-> Pick(1..3), items |-> [i \in 1..Pick(0..6) |-> PickItem(h)]]
    [] w <= 15 -> [op |-> "restore", k |-> k, types |-> IF Has(pe, k) THEN PickTypes(h, pe[k]) ELSE <<Pick(T)>>,
                   into |-> Pick(0..20)]
    [] w <= 17 -> [op |-> "cut", k |-> k, j |-> Pick(1..6), r |-> Pick(1..60)]
    [] w = 18 -> [op |-> "delete", k |-> k]
    [] w = 19 -> [op |-> "nowhere", w |-> Pick({TRUE, FALSE}), how |-> Pick({"below", "taken"})]
    [] OTHER -> [op |-> "names", k |-> Pick(1..3)]
SimNext == Len(hist) < SimDepth /\ \E o \in {PickOp(i) : i \in 1..1} :
             Do(o) /\ hist' = Append(hist, o)
SimSpec == MCInit /\ [][SimNext]_<<vars, hist>>
Emitted == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
