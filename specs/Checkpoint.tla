----------------------------- MODULE Checkpoint -----------------------------
(* Storing a simulation to a file and restoring it, later or in another        *)
(* simulation of the same structure.  The simulation has three components of   *)
(* one class (a model, its child and a service), the scheduler and the time    *)
(* keeper (Scheduling) and the event manager (EventManager).                   *)
(*   sc, em  states of these services                                          *)
(*   mem     value of each slot of each component, forced: frozen fields       *)
(*   files   what was stored, by name of file                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES ck, out
vars == <<ck, out>>
CONSTANT Eps, Subs, Slots, Transient  \* names; slots that are not stored
SC == INSTANCE Scheduling WITH Slots <- Eps, sch <- ck, out <- out
EM == INSTANCE EventManager WITH Eps <- Subs, em <- ck, out <- out

Insts == {"m", "kid", "sv"}
Order == <<"m", "kid", "sv">>
NoFiles == [k \in {} |-> 0]
New == [sc |-> SC!Empty, em |-> EM!Empty, forced |-> {},
        mem |-> [i \in Insts |-> [s \in Slots |-> 0]]]
Empty == New @@ [files |-> NoFiles]
User == 19  \* events up to this one are predefined

Kept(S) == [sc |-> S.sc, em |-> S.em, forced |-> S.forced, mem |-> S.mem]
\* the state after a restoration: that of the file, but for transient slots
Load(S, F) == [S EXCEPT !.sc = F.sc, !.em = F.em, !.forced = F.forced,
                 !.mem = [i \in Insts |-> [s \in Slots |->
                            IF s \in Transient THEN S.mem[i][s] ELSE F.mem[i][s]]]]
Fresh(S) == New @@ [files |-> S.files]
Without(S, k) == [f \in DOMAIN S.files \ {k} |-> S.files[f]]

SchedOps == {"add", "set", "cycle", "repeat", "remove", "run", "set_epoch", "set_start", "set_mission"}
EventOps == {"query", "sub", "unsub", "emit"}
Visits(L) == SelectSeq(L, LAMBDA x : x.k \in Eps)
Calls(L) == LET C == SelectSeq(L, LAMBDA x : x.k = "call") IN [i \in 1..Len(C) |-> C[i].n]

R(S, e, v) == [s |-> S, e |-> e, v |-> v]
Memory(S) == [mem |-> S.mem, forced |-> [i \in Insts |-> i \in S.forced], now |-> S.sc.now, ep |-> SC!Epoch(S.sc),
              ms |-> S.sc.ms, next |-> SC!Next1(S.sc), st |-> S.sc.st]
Effect(S, o) ==
  CASE o.op \in SchedOps ->
         LET T == SC!Effect(SC!Fresh(S.sc), o)
         IN R([S EXCEPT !.sc = [SC!Fresh(T) EXCEPT !.enders = {}]], T.res.e,
              [id |-> T.res.v, log |-> Visits(T.log), now |-> T.now])
    [] o.op \in EventOps ->
         LET T == EM!Basic(S.em, o)
         IN R([S EXCEPT !.em = EM!Fresh(T)], T.res.e, [id |-> T.res.v, log |-> Calls(T.log)])
    [] o.op = "put" ->
         LET set == ~(o.s = "f" /\ o.i \in S.forced)
         IN R(IF set THEN [S EXCEPT !.mem[o.i][o.s] = o.v] ELSE S, "ok",
              IF set THEN o.v ELSE S.mem[o.i]["f"])
    [] o.op = "force" -> R([S EXCEPT !.mem[o.i]["f"] = o.v, !.forced = @ \cup {o.i}], "ok", o.v)
    [] o.op = "freeze" -> R([S EXCEPT !.forced = @ \cup {o.i}], "ok", S.mem[o.i]["f"])
    [] o.op = "unforce" -> R([S EXCEPT !.forced = @ \ {o.i}], "ok", S.mem[o.i]["f"])
    [] o.op = "store" ->
         LET T == [S EXCEPT !.files = (o.k :> Kept(S)) @@ @] IN R(T, "ok", Memory(T))
    [] o.op = "restore" ->
         IF o.k \in DOMAIN S.files
         THEN LET T == Load(S, S.files[o.k]) IN R(T, "ok", Memory(T))
         ELSE LET T == Fresh(S) IN R(T, "CannotRestore", Memory(T))
    \* the file was cut: the restoration fails and the simulation is given up
    [] o.op = "cut" -> LET T == Fresh([S EXCEPT !.files = Without(S, o.k)])
                       IN R(T, "CannotRestore", Memory(T))
    \* the simulation has one component more than when it was stored
    [] o.op = "more" -> LET T == Fresh(S) IN R(T, "CannotRestore", Memory(T))
    \* the state refers to an object that is not part of the simulation
    [] o.op = "stray" -> LET T == Fresh(S) IN R(T, "CannotRestore", Memory(T))
    \* a place where no file can be made
    [] o.op = "nostore" -> LET T == Fresh(S) IN R(T, "CannotStore", Memory(T))
    [] o.op = "fresh" -> LET T == Fresh(S) IN R(T, "ok", Memory(T))
    \* a zulu time event stored before its time is executed after a restoration,
    \* one posted after the state was stored is not
    [] o.op = "zulu" -> LET T == Fresh(S)
                        IN R(T, "ok", IF o.late THEN 0 ELSE 1)
Legal(S, o) ==
  CASE o.op \in {"cut", "more"} -> o.k \in DOMAIN S.files
    [] o.op = "put" -> (o.s = "x" => o.v \in {0, 1}) /\ (o.s = "g" => o.v \in 0..3)
    [] o.op \in {"sub", "unsub", "emit"} -> o.id > User
    [] o.op = "run" -> o.t >= 0
    [] o.op \in {"set", "cycle", "repeat", "remove"} -> SC!OpLegal(S.sc, o)
    [] OTHER -> TRUE
Init == ck = Empty /\ out = [e |-> "ok", v |-> 0]
Do(o) == /\ Legal(ck, o)
         /\ LET r == Effect(ck, o) IN ck' = r.s /\ out' = [e |-> r.e, v |-> r.v]

-----------------------------------------------------------------------------
\* what is done after a restoration has the effect it would have had when the
\* state was stored
Resumes(o) == \A k \in DOMAIN ck.files :
  LET F == [ck.files[k] EXCEPT !.mem = Load(ck, ck.files[k]).mem] @@ [files |-> ck.files]
      T == Effect(ck, [op |-> "restore", k |-> k]).s
  IN Effect(T, o).v = Effect(F, o).v /\ Effect(T, o).e = Effect(F, o).e
\* nothing waits in the past, nothing is lost
Sound == /\ ck.sc.post \cap ck.sc.imm = {}
         /\ DOMAIN ck.sc.ev = ck.sc.post \cup ck.sc.imm
         /\ \A i \in ck.sc.post : ck.sc.ev[i].next >= ck.sc.now
\* storing changes nothing, restoring at once changes nothing either
StoreQuiet == \A o \in [op : {"store"}, k : {1, 2}] :
                LET T == Effect(ck, o).s IN Kept(T) = Kept(ck) /\
                  Kept(Effect(T, [op |-> "restore", k |-> o.k]).s) = Kept(ck)
=============================================================================
