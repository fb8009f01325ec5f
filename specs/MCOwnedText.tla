---------------------------- MODULE MCOwnedText ----------------------------
EXTENDS OwnedText, TLC, Json
CONSTANTS Alphabet, MaxArg, SimDepth
VARIABLE hist
Args == UNION {[1..n -> Alphabet] : n \in 0..MaxArg}
Refused(o) == [o EXCEPT !.out = [e |-> "bad_alloc"]]
F == BOOLEAN
R == [e : {"ok", "bad_alloc"}]
Ops == [op : {"new"}, how : {"cstr", "len", "sv"}, k : Objs, s : Args, fail : F, out : R] \cup
       [op : {"copy_new", "copy_assign"}, k : Objs, j : Objs, fail : F, out : R] \cup
       [op : {"move_new", "move_assign"}, k : Objs, j : Objs] \cup
       [op : {"assign_text"}, k : Objs, s : Args, fail : F, out : R] \cup
       [op : {"assign_tail"}, k : Objs, j : Objs, n : 0..1, fail : F, out : R] \cup
       [op : {"destroy"}, k : Objs] \cup [op : {"destroy_all", "read"}]
MCInit == Init /\ hist = <<>>
MCNext == \E o \in Ops : Do(o) /\
             hist' = IF SimDepth > 0 THEN Append(hist, o) ELSE hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
View == txt
Emit == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
\* a refused allocation changes nothing
FailureIsAtomic == [][out'.e = "bad_alloc" => txt' = txt]_vars
=============================================================================
