----------------------------- MODULE OwnedText -----------------------------
(* Owning C strings (Xsmp::cstring): each object is absent, holds its own     *)
(* private copy of a text, or has been moved from.  The texts of two objects  *)
(* are never shared, a failed operation leaves its target unchanged, and when *)
(* the last object is gone no memory is left behind.                          *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Objs
VARIABLES txt,   \* Objs -> <<>> | <<text>> | <<"moved">>-like marker, see below
          out
vars == <<txt, out>>

\* an object is a record: st in {"absent", "holds", "moved"}
Absent == [st |-> "absent", s |-> <<>>]
Moved  == [st |-> "moved", s |-> <<>>]
Holds(s) == [st |-> "holds", s |-> s]
Alive(k) == txt[k].st # "absent"
HasText(k) == txt[k].st = "holds"

CStr(s) == LET Z == {i \in 1..Len(s) : s[i] = 0}
           IN  IF Z = {} THEN s
               ELSE SubSeq(s, 1, (CHOOSE i \in Z : \A j \in Z : i <= j) - 1)
Drop(s, n) == SubSeq(s, n + 1, Len(s))

Ok(v) == [e |-> "ok", v |-> v]
\* observation: the text of every object that holds one, through c_str()
Obs(f) == [k \in {x \in Objs : f[x].st = "holds"} |-> f[k].s]
Upd(f) == txt' = f /\ out' = Ok([c |-> Obs(f)])
\* outcome of an operation that needs memory and may be refused it
Alloc(o, f) == IF o.fail /\ o.out.e = "bad_alloc"
               THEN txt' = txt /\ out' = [e |-> "bad_alloc", v |-> [c |-> Obs(txt)]]
               ELSE Upd(f)

Init == txt = [k \in Objs |-> Absent] /\ out = Ok([c |-> Obs(txt)])

New(o)      == ~Alive(o.k) /\ Alloc(o, [txt EXCEPT ![o.k] = Holds(CStr(o.s))])
CopyNew(o)  == ~Alive(o.k) /\ HasText(o.j) /\
               Alloc(o, [txt EXCEPT ![o.k] = Holds(txt[o.j].s)])
MoveNew(o)  == ~Alive(o.k) /\ Alive(o.j) /\
               Upd([txt EXCEPT ![o.k] = txt[o.j], ![o.j] = Moved])
CopyAssign(o) == Alive(o.k) /\ HasText(o.j) /\
               Alloc(o, [txt EXCEPT ![o.k] = Holds(txt[o.j].s)])
\* a self-move keeps the text
MoveAssign(o) == Alive(o.k) /\ Alive(o.j) /\
               IF o.k = o.j THEN Upd(txt)
               ELSE Upd([txt EXCEPT ![o.k] = txt[o.j], ![o.j] = Moved])
AssignText(o) == Alive(o.k) /\ Alloc(o, [txt EXCEPT ![o.k] = Holds(CStr(o.s))])
\* the assigned C string may be a tail of some object's own text
AssignTail(o) == Alive(o.k) /\ HasText(o.j) /\ o.n <= Len(txt[o.j].s) /\
               Alloc(o, [txt EXCEPT ![o.k] = Holds(Drop(txt[o.j].s, o.n))])
Destroy(o)  == Alive(o.k) /\ Upd([txt EXCEPT ![o.k] = Absent])
\* destroys everything; every block of memory has been given back
DestroyAll(o) == txt' = [k \in Objs |-> Absent] /\
                 out' = Ok([leaked |-> 0])
Read(o)     == txt' = txt /\ out' = Ok([c |-> Obs(txt)])

Do(o) == \/ o.op = "new" /\ New(o)
         \/ o.op = "copy_new" /\ CopyNew(o)
         \/ o.op = "move_new" /\ MoveNew(o)
         \/ o.op = "copy_assign" /\ CopyAssign(o)
         \/ o.op = "move_assign" /\ MoveAssign(o)
         \/ o.op = "assign_text" /\ AssignText(o)
         \/ o.op = "assign_tail" /\ AssignTail(o)
         \/ o.op = "destroy" /\ Destroy(o)
         \/ o.op = "destroy_all" /\ DestroyAll(o)
         \/ o.op = "read" /\ Read(o)

-----------------------------------------------------------------------------
TypeOK == \A k \in Objs : txt[k].st \in {"absent", "holds", "moved"}
NoNul  == \A k \in Objs : \A i \in 1..Len(txt[k].s) : txt[k].s[i] # 0
\* nothing but an operation naming an object ever changes its text
Independent == [][Cardinality({k \in Objs : txt'[k] # txt[k]}) <= 2 \/
                  txt' = [k \in Objs |-> Absent]]_txt
=============================================================================
