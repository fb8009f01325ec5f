------------------------------ MODULE Persist ------------------------------
(* Files of values, each with its type.  A value of a type is known by its     *)
(* number; what matters is that the same value of the same type comes back.    *)
(*   files   values stored in each file, in order: [t type, n number]          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES pe, out
vars == <<pe, out>>
Places == {"dir", "new/deep"}
Empty == [k \in {} |-> <<>>]
\* restoring values of the given types: all of them, or a prefix and a failure
RECURSIVE Read(_, _)
Read(F, ts) ==
  IF ts = <<>> THEN [e |-> "ok", v |-> <<>>]
  ELSE IF F = <<>> \/ Head(F).op # Head(ts) \/ Head(F).n < 0
  THEN [e |-> "CannotRestore", v |-> <<>>]
  ELSE LET r == Read(Tail(F), Tail(ts)) IN [r EXCEPT !.v = <<Head(F).n>> \o @]
Cut == [op |-> "cut", n |-> -1]
Has(S, k) == k \in DOMAIN S
R(S, e, v) == [s |-> S, e |-> e, v |-> v]
Basic(S, o) ==
  CASE o.op = "store" -> R((o.k :> o.items) @@ S, "ok", <<>>)
    [] o.op = "restore" ->
         IF ~Has(S, o.k) THEN R(S, "CannotRestore", <<>>)
         ELSE LET r == Read(S[o.k], o.types) IN R(S, r.e, r.v)
    \* the file loses its last bytes: from within value j on
    [] o.op = "cut" -> IF ~Has(S, o.k) \/ o.j > Len(S[o.k]) THEN R(S, "none", <<>>)
                       ELSE R([S EXCEPT ![o.k] = SubSeq(@, 1, o.j - 1) \o <<Cut>>], "ok", <<>>)
    [] o.op = "delete" -> R([f \in DOMAIN S \ {o.k} |-> S[f]], "ok", <<>>)
    \* the place of the file is taken by a directory, or is below a file
    [] o.op = "nowhere" -> R(S, IF o.w THEN "CannotStore" ELSE "CannotRestore", <<>>)
    [] o.op = "names" -> R((o.k :> <<>>) @@ S, "ok", <<TRUE, TRUE>>)
Init == pe = Empty /\ out = [e |-> "ok", v |-> <<>>]
Do(o) == LET r == Basic(pe, o) IN pe' = r.s /\ out' = [e |-> r.e, v |-> r.v]

-----------------------------------------------------------------------------
Types(F) == [i \in 1..Len(F) |-> F[i].op]
Numbers(F) == [i \in 1..Len(F) |-> F[i].n]
Whole(F) == \A i \in 1..Len(F) : F[i].n >= 0
\* what was stored comes back, in whole or any prefix
BackAgain == \A k \in DOMAIN pe : LET F == pe[k] IN Whole(F) =>
               \A n \in 0..Len(F) : Read(F, SubSeq(Types(F), 1, n)) = [e |-> "ok", v |-> SubSeq(Numbers(F), 1, n)]
\* nothing comes back that was not stored
NoMore(T) == \A k \in DOMAIN pe : LET F == pe[k] IN
               \A t \in T : LET r == Read(F, Types(F) \o <<t>>)
                            IN r.e = "CannotRestore" /\ Len(r.v) <= Len(F)
=============================================================================
