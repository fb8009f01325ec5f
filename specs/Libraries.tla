----------------------------- MODULE Libraries -----------------------------
(* Dynamic libraries and the life cycle of the packages they contain.         *)
(* A library is loaded by its bare name and stays resident until it has been  *)
(* closed as often as it was loaded.  The services package initialises its    *)
(* six parts once per simulator, and finalises them once for all simulators,  *)
(* in the opposite order.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Libs,       \* libraries that can be loaded
          Broken,     \* names for which loading fails
          PkgOf       \* Libs -> package whose entry points it exports, or "none"
VARIABLES count,      \* Libs -> number of loads not closed yet
          err,        \* "none" | "pending" | "any": unread loader error
          inited,     \* simulators the services package is initialised for
          out
vars == <<count, err, inited, out>>

Parts == <<"logger", "time_keeper", "resolver", "event_manager",
           "link_registry", "scheduler">>
Ok(v) == [e |-> "ok", v |-> v]
RangeOf(s) == {s[i] : i \in 1..Len(s)}

Init == /\ count = [l \in Libs |-> 0] /\ err = "none" /\ inited = {}
        /\ out = Ok(0)

Load(n) ==
  /\ UNCHANGED inited
  /\ IF n \in Libs
     THEN /\ count' = [count EXCEPT ![n] = @ + 1] /\ err' = "any"
          /\ out' = Ok([r |-> "handle", loaded |-> TRUE])
     ELSE /\ n \in Broken \cup {"null"} /\ UNCHANGED count
          /\ err' = IF n = "null" THEN err ELSE "pending"
          /\ out' = Ok([r |-> "none", loaded |-> FALSE])
Close(n) == /\ n \in Libs /\ count[n] > 0 /\ UNCHANGED inited
            /\ count' = [count EXCEPT ![n] = @ - 1] /\ err' = "any"
            /\ out' = Ok(count'[n] > 0)
\* the error text is non-empty exactly once after a failure
LastError(o) == /\ UNCHANGED <<count, inited>> /\ err' = "none"
                /\ out' = Ok(CASE err = "none" -> FALSE [] err = "pending" -> TRUE
                               [] OTHER -> o.out.v)
Symbol(n, s) ==
  /\ count[n] > 0 /\ UNCHANGED <<count, inited>>
  /\ LET has == s = "Initialise" \/ s = "Finalise" IN
     /\ out' = Ok(IF has /\ ~(s = "Initialise" /\ PkgOf[n] = "noinit")
                         /\ ~(s = "Finalise" /\ PkgOf[n] = "nofin")
                  THEN "found" ELSE "none")
     /\ err' = IF s = "null" THEN err
               ELSE IF out'.v = "none" THEN "pending" ELSE "any"

Calls(suffix, order) == [i \in 1..Len(order) |-> order[i] \o suffix]
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

InitPkg(p, o) ==
  LET fails(S) == RangeOf(o.bad) \cap S # {} IN
  CASE p = "services" ->
         IF o.sim = "null"
         THEN UNCHANGED inited /\ out' = Ok([r |-> FALSE, calls |-> <<>>])
         ELSE IF o.sim \in inited
         THEN UNCHANGED inited /\ out' = Ok([r |-> TRUE, calls |-> <<>>])
         ELSE inited' = inited \cup {o.sim} /\
              out' = Ok([r |-> ~fails(RangeOf(Parts)),
                         calls |-> Calls("+" \o o.sim \o o.reg, Parts)])
    [] p \in RangeOf(Parts) ->
         UNCHANGED inited /\
         out' = Ok([r |-> ~fails({p}), calls |-> Calls("+" \o o.sim \o o.reg, <<p>>)])
FinPkg(p, o) ==
  LET fails(S) == RangeOf(o.bad) \cap S # {} IN
  CASE p = "services" ->
         IF inited = {} THEN UNCHANGED inited /\ out' = Ok([r |-> TRUE, calls |-> <<>>])
         ELSE inited' = {} /\
              out' = Ok([r |-> ~fails(RangeOf(Parts)),
                         calls |-> Calls("-", Reverse(Parts))])
    [] p \in RangeOf(Parts) ->
         UNCHANGED inited /\
         out' = Ok([r |-> ~fails({p}), calls |-> Calls("-", <<p>>)])
HasEntryPoints(l) == PkgOf[l] = "services" \/ PkgOf[l] \in RangeOf(Parts)
ViaLib(o) == o.lib = "static" \/ (o.lib \in Libs /\ count[o.lib] > 0 /\ HasEntryPoints(o.lib))
Pkg(o) == IF o.lib = "static" THEN "services" ELSE PkgOf[o.lib]
Initialise(o) == /\ ViaLib(o) /\ InitPkg(Pkg(o), o)
                 /\ err' = (IF o.lib = "static" THEN err ELSE "any") /\ UNCHANGED count
Finalise(o)   == /\ ViaLib(o) /\ FinPkg(Pkg(o), o)
                 /\ err' = (IF o.lib = "static" THEN err ELSE "any") /\ UNCHANGED count

Do(o) == \/ o.op = "load" /\ Load(o.lib)
         \/ o.op = "close" /\ Close(o.lib)
         \/ o.op = "last_error" /\ LastError(o)
         \/ o.op = "symbol" /\ o.lib \in Libs /\ Symbol(o.lib, o.name)
         \/ o.op = "init" /\ Initialise(o)
         \/ o.op = "fin" /\ Finalise(o)
-----------------------------------------------------------------------------
NeverNegative == \A l \in Libs : count[l] >= 0
NullNeverInitialised == "null" \notin inited
\* the parts run only for a simulator that was not initialised yet
OncePerSimulator == [][\A s \in inited : s \in inited' \/ inited' = {}]_vars
=============================================================================
