--------------------------- MODULE SharedDataLog ---------------------------
(* Traces of freely running threads.  A thread logs call -> acq/refused ->    *)
(* (value) -> rel -> done; `acq` and `rel` are logged while the guard is      *)
(* held, so that between them the thread certainly holds the lock, and        *)
(* between call and acq, or rel and done, it may or may not hold it.          *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, phase, kind, data, conflict
vars == <<tid, l, phase, kind, data, conflict>>
Threads == 0..7
LInit == /\ tid \in 1..Len(Traces) /\ l = 1
         /\ phase = [t \in Threads |-> "idle"]
         /\ kind = [t \in Threads |-> "R"]
         /\ data = 0
         /\ conflict = [t \in Threads |-> FALSE]
Clash(k1, k2) == k1 = "W" \/ k2 = "W"
Holds(t) == phase[t] = "hold"
\* t's attempt could meet another thread that has the lock
Meets(t, k) == \E u \in Threads \ {t} : phase[u] # "idle" /\ Clash(k, kind[u])
E == Traces[tid][l]
Step ==
  /\ l <= Len(Traces[tid]) /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET t == E.t IN
     \/ /\ E.op = "call" /\ phase[t] = "idle"
        /\ phase' = [phase EXCEPT ![t] = "call"]
        /\ kind' = [kind EXCEPT ![t] = E.k]
        \* everyone in the middle of an attempt may now meet t
        /\ conflict' = [u \in Threads |->
              IF u = t THEN Meets(t, E.k)
              ELSE conflict[u] \/ (phase[u] = "call" /\ Clash(kind[u], E.k))]
        /\ UNCHANGED data
     \/ /\ E.op = "acq" /\ phase[t] = "call"
        /\ \A u \in Threads \ {t} : Holds(u) => ~Clash(kind[t], kind[u])
        /\ E.v = data   \* the value seen at acquisition
        /\ phase' = [phase EXCEPT ![t] = "hold"]
        /\ UNCHANGED <<kind, data, conflict>>
     \/ /\ E.op = "refused" /\ phase[t] = "call" /\ conflict[t]
        /\ phase' = [phase EXCEPT ![t] = "idle"]
        /\ UNCHANGED <<kind, data, conflict>>
     \/ /\ E.op = "put" /\ Holds(t) /\ kind[t] = "W" /\ data' = E.v
        /\ UNCHANGED <<phase, kind, conflict>>
     \/ /\ E.op = "rel" /\ Holds(t) /\ E.v = data
        /\ phase' = [phase EXCEPT ![t] = "rel"]
        /\ UNCHANGED <<kind, data, conflict>>
     \/ /\ E.op = "done" /\ phase[t] = "rel"
        /\ phase' = [phase EXCEPT ![t] = "idle"]
        /\ UNCHANGED <<kind, data, conflict>>
LSpec == LInit /\ [][Step]_vars
Exclusive == \A t, u \in Threads : t # u /\ Holds(t) /\ Holds(u) =>
                kind[t] = "R" /\ kind[u] = "R"
=============================================================================
