----------------------------- MODULE SharedData -----------------------------
(* Data shared between threads through read and write guards                  *)
(* (Xsmp::ThreadSafeData): any number of readers or one writer.  One action   *)
(* per call of a thread; a call that cannot be granted waits, and is granted  *)
(* by the release that makes it possible.                                     *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads
VARIABLES guard,   \* Threads -> "none" | "R" | "W" (held) | "r" | "w" (unlocked)
          wait,    \* Threads -> "no" | "R" | "W"
          data,    \* the protected value
          out
vars == <<guard, wait, data, out>>

Readers(g) == {t \in Threads : g[t] = "R"}
Writers(g) == {t \in Threads : g[t] = "W"}
Free(k, g) == Writers(g) = {} /\ (k = "W" => Readers(g) = {})
Waiting == {t \in Threads : wait[t] # "no"}

Ok(v) == [e |-> "ok", v |-> v]
Blocked == [e |-> "blocked", v |-> 0]
Refused == [e |-> "refused", v |-> 0]

Init == /\ guard = [t \in Threads |-> "none"]
        /\ wait = [t \in Threads |-> "no"]
        /\ data = 0 /\ out = Ok(0)

\* t asks for access k; with one waiting thread at a time what happens next
\* does not depend on the fairness of the lock
Acquire(t, k) ==
  /\ wait[t] = "no" /\ Waiting = {} /\ UNCHANGED data
  /\ IF Free(k, guard)
     THEN guard' = [guard EXCEPT ![t] = k] /\ UNCHANGED wait /\ out' = Ok(data)
     ELSE wait' = [wait EXCEPT ![t] = k] /\ UNCHANGED guard /\ out' = Blocked
Read(t)  == guard[t] = "none" /\ Acquire(t, "R")
Write(t) == guard[t] = "none" /\ Acquire(t, "W")
\* locks again a guard that was unlocked
Relock(t) == guard[t] \in {"r", "w"} /\
             Acquire(t, IF guard[t] = "r" THEN "R" ELSE "W")

Try(t, k) ==
  /\ guard[t] = "none" /\ Waiting = {} /\ UNCHANGED <<wait, data>>
  /\ IF Free(k, guard)
     THEN guard' = [guard EXCEPT ![t] = k] /\ out' = Ok(data)
     ELSE UNCHANGED guard /\ out' = Refused
TryRead(t)  == Try(t, "R")
TryWrite(t) == Try(t, "W")

Release(t, to) ==
  LET g == [guard EXCEPT ![t] = to]
      W == {u \in Waiting : Free(wait[u], g)}
  IN  /\ wait[t] = "no" /\ UNCHANGED data
      /\ IF W = {} THEN guard' = g /\ UNCHANGED wait /\ out' = Ok("none")
         ELSE LET u == CHOOSE u \in W : TRUE IN
              /\ guard' = [g EXCEPT ![u] = wait[u]]
              /\ wait' = [wait EXCEPT ![u] = "no"]
              /\ out' = Ok(u)
Unlock(t) == \/ guard[t] = "R" /\ Release(t, "r")
             \/ guard[t] = "W" /\ Release(t, "w")
\* the guard goes out of scope, locked or not
DropGuard(t) == guard[t] # "none" /\ Release(t, "none")

Get(t) == guard[t] \in {"R", "W"} /\ UNCHANGED <<guard, wait, data>> /\ out' = Ok(data)
Put(t, x) == guard[t] = "W" /\ data' = x /\ UNCHANGED <<guard, wait>> /\ out' = Ok(x)

Do(o) == \/ o.op = "read" /\ Read(o.t)
         \/ o.op = "write" /\ Write(o.t)
         \/ o.op = "relock" /\ Relock(o.t)
         \/ o.op = "try_read" /\ TryRead(o.t)
         \/ o.op = "try_write" /\ TryWrite(o.t)
         \/ o.op = "unlock" /\ Unlock(o.t)
         \/ o.op = "drop" /\ DropGuard(o.t)
         \/ o.op = "get" /\ Get(o.t)
         \/ o.op = "put" /\ Put(o.t, o.x)
-----------------------------------------------------------------------------
Exclusive == Writers(guard) # {} =>
                Cardinality(Writers(guard)) = 1 /\ Readers(guard) = {}
\* no thread waits for something that is free
NoLostWakeup == \A t \in Waiting : ~Free(wait[t], guard)
\* only the thread holding the write guard changes the data
OnlyWriterWrites == [][data' # data => Writers(guard) # {}]_vars
=============================================================================
