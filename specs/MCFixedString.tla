--------------------------- MODULE MCFixedString ---------------------------
EXTENDS FixedString, TLC, Json

CONSTANTS Alphabet, MaxArg, SimDepth
VARIABLE hist

Args == UNION {[1..n -> Alphabet] : n \in 0..MaxArg}
CapDef == [a |-> 0, b |-> 1, c |-> 2, d |-> 2]
SlotsDef == {"b", "c", "d"}

Ops ==
  [op : {"assign"}, how : {"sv"}, k : Slots, s : Args] \cup
  [op : {"assign_from"}, how : {"op"}, k : Slots, j : Slots] \cup
  [op : {"append"}, how : {"sv"}, k : Slots, s : Args] \cup
  [op : {"append_from"}, how : {"op"}, k : Slots, j : Slots] \cup
  [op : {"push_back"}, how : {"push"}, k : Slots, c : Alphabet] \cup
  [op : {"pop_back", "clear", "front", "back", "sizes"}, k : Slots] \cup
  [op : {"remove_suffix", "remove_prefix"}, k : Slots, n : 0..3] \cup
  [op : {"swap"}, how : {"member"}, k : Slots, j : Slots] \cup
  [op : {"put_at"}, k : Slots, i : 0..2, c : Alphabet] \cup
  [op : {"at"}, k : Slots, i : 0..2] \cup
  [op : {"substr"}, k : Slots, p : 0..3, n : {-1, 0, 1, 2}] \cup
  [op : {"rel_from"}, k : Slots, j : Slots,
   r : {"eq", "ne", "lt", "le", "gt", "ge"}] \cup
  [op : {"concat_from", "compare_from"}, k : Slots, j : Slots]

MCInit == Init /\ hist = <<>>
MCNext == \E o \in Ops :
            /\ Do(o)
            /\ hist' = IF SimDepth > 0 THEN Append(hist, o) ELSE hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
View == str
Emit == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
\* an append keeps what was there; truncation only shortens
AppendKeeps == [][\A o \in Ops : (o.op = "append" /\ Do(o)) =>
                     Take(str'[o.k], Len(str[o.k])) = str[o.k]]_str
=============================================================================
