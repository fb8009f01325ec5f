----------------------------- MODULE Simulation -----------------------------
(* The simulator: its state machine with the global events, the traversals    *)
(* that publish, configure, connect and disconnect components, initialisation *)
(* entry points, standard services and libraries.  A public call is one       *)
(* transition; what happens during it (component callbacks, event handlers,   *)
(* entry points, library entry points) is the log it leaves, each entry with  *)
(* the state the simulator shows at that moment.  One of these callbacks may  *)
(* be armed to call the simulator again, so the transition is computed by an  *)
(* interpreter over a record S:                                               *)
(*   st state; cur event being emitted; cs components, in order of addition   *)
(*   (services before models is the order of traversal); ini entry points;    *)
(*   pend hold requested for the end of the current time; libs loaded;        *)
(*   at/act/arg/kind the armed call; log; err error of the last addition      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS GoodLibs, FalseLibs, IncompleteLibs
VARIABLES sim, out
vars == <<sim, out>>

RangeOf(s) == {s[i] : i \in 1..Len(s)}
Names(S) == {S.cs[i].n : i \in 1..Len(S.cs)}
Comp(S, n) == CHOOSE i \in 1..Len(S.cs) : S.cs[i].n = n
StateOf(S, n) == S.cs[Comp(S, n)].s
SetState(S, n, s) == [S EXCEPT !.cs[Comp(S, n)].s = s]
FirstOf(S, k) == LET I == {i \in 1..Len(S.cs) : S.cs[i].k = k}
                 IN IF I = {} THEN "" ELSE S.cs[CHOOSE i \in I : \A j \in I : i <= j].n
HasEvents(S) == FirstOf(S, "event_manager") # ""
Talks(k) == k \in {"model", "plain"}  \* the others do nothing visible

\* components of container c of p, in order of addition
Held(S, p, c) == LET T(x) == x.p = p /\ x.c = c IN SelectSeq(S.cs, T)
Containers(p) == IF p = "sim" THEN <<"services", "models">> ELSE <<"kids", "more">>

Empty == [st |-> "Building", cur |-> "", cs |-> <<>>, ini |-> <<>>, pend |-> FALSE,
          libs |-> <<>>, at |-> "", act |-> "", arg |-> "", kind |-> "",
          log |-> <<>>, err |-> "ok"]

\* the state is final once the simulator aborts
Enter(S, st) == IF S.st = "Aborting" THEN S ELSE [S EXCEPT !.st = st]

RECURSIVE Tok(_, _), Call(_, _, _, _), WalkAll(_, _, _), WalkCont(_, _, _, _),
          WalkComp(_, _, _), WalkFrom(_, _, _, _), Inits(_, _, _)

Emit(S, ev) ==
  IF ~HasEvents(S) \/ (S.st = "Aborting" /\ ev # "EnterAborting") THEN S
  ELSE [Tok([S EXCEPT !.cur = ev], "ev:" \o ev) EXCEPT !.cur = S.cur]

DoAbort(S) == IF S.st = "Aborting" THEN S
              ELSE Emit([S EXCEPT !.st = "Aborting"], "EnterAborting")

Tok(S, t) ==
  LET S1 == [S EXCEPT !.log = Append(@, t \o "@" \o S.st)]
  IN IF S.at # t THEN S1
     ELSE IF S.act = "throw" THEN DoAbort([S1 EXCEPT !.at = ""])
     ELSE Call([S1 EXCEPT !.at = ""], S.act, S.arg, S.kind)

\* life cycle steps of one component: up to which state the traversal takes it
Step(S, n, from, to, tok) ==
  IF StateOf(S, n) # from THEN S
  ELSE LET S1 == SetState(S, n, to)
       IN IF Talks(S.cs[Comp(S, n)].k) THEN Tok(S1, tok \o n) ELSE S1
Leave(S, n) ==
  IF StateOf(S, n) # "Connected" THEN S
  ELSE LET S1 == IF Talks(S.cs[Comp(S, n)].k) THEN Tok(S, "dis:" \o n) ELSE S
       IN SetState(S1, n, "Disconnected")
Lift(S, n, mode) ==
  IF mode = "disconnect" THEN Leave(S, n)
  ELSE LET S1 == Step(S, n, "Created", "Publishing", "pub:")
           S2 == IF mode = "publish" THEN S1
                 ELSE Step(S1, n, "Publishing", "Configured", "cfg:")
       IN IF mode \in {"publish", "configure"} THEN S2
          ELSE Step(S2, n, "Configured", "Connected", "con:")

WalkComp(S, n, mode) ==
  LET S1 == Lift(S, n, mode)
  IN IF S1.cs[Comp(S1, n)].k = "model" THEN WalkAll(S1, n, mode) ELSE S1
\* components added during the traversal are visited too
WalkFrom(S, pc, i, mode) ==
  LET H == Held(S, pc[1], pc[2])
  IN IF i > Len(H) THEN S ELSE WalkFrom(WalkComp(S, H[i].n, mode), pc, i + 1, mode)
WalkCont(S, p, j, mode) ==
  IF j > 2 THEN S
  ELSE WalkCont(WalkFrom(S, <<p, Containers(p)[j]>>, 1, mode), p, j + 1, mode)
WalkAll(S, p, mode) == WalkCont(S, p, 1, mode)

\* entry points run in the Initialising state only
Inits(S, eps, i) == IF i > Len(eps) \/ S.st = "Aborting" THEN S
                    ELSE Inits(Tok(S, "init:" \o eps[i]), eps, i + 1)
Initialising(S) ==
  IF S.st = "Aborting" THEN S
  ELSE LET S1 == Emit([S EXCEPT !.st = "Initialising"], "EnterInitialising")
           S2 == Inits([S1 EXCEPT !.ini = <<>>], S1.ini, 1)
       IN Emit(Enter(Emit(S2, "LeaveInitialising"), "Standby"), "EnterStandby")

InStandby(S) == S.st = "Standby" /\ S.cur # "LeaveStandby"
AddTo(S, n, k, p, c) ==
  LET clash == \E i \in 1..Len(S.cs) : S.cs[i].p = p /\ S.cs[i].n = n
  IN IF clash THEN [S EXCEPT !.err = "DuplicateName"]
     ELSE [S EXCEPT !.cs = Append(@, [n |-> n, k |-> k, p |-> p, c |-> c, s |-> "Created"]),
                    !.err = "ok"]
Open(S) == S.st \in {"Building", "Connecting", "Standby"}

\* operations on objects that do not exist do nothing
Legal(S, a, n, k) ==
  CASE a \in {"add_model", "add_more"} ->
         /\ k \in Names(S) \cup (IF a = "add_more" THEN {} ELSE {"sim"})
         /\ k # "sim" => S.cs[Comp(S, k)].k = "model"
         /\ \A i \in 1..Len(S.cs) : S.cs[i].n = n =>
               \* a name designates one component (clashes with siblings are fine)
               S.cs[i].p = k
    [] a = "add_service" ->
         /\ \A i \in 1..Len(S.cs) : S.cs[i].n = n => S.cs[i].p = "sim"
         /\ k = "time_keeper" => HasEvents(S)
    [] a = "reconnect" -> n \in Names(S) \cup {"null"}
    [] a = "presim" -> HasEvents(S)
    [] OTHER -> TRUE

Call(S0, a, n, k) ==
  LET S == [S0 EXCEPT !.err = "ok"] IN
  IF ~Legal(S, a, n, k) THEN S ELSE
  CASE a = "publish" ->
         IF S.st # "Building" THEN S ELSE WalkAll(S, "sim", "publish")
    [] a = "configure" ->
         IF S.st # "Building" THEN S ELSE WalkAll(S, "sim", "configure")
    [] a = "connect" ->
         IF S.st # "Building" THEN S
         ELSE LET S1 == WalkAll([S EXCEPT !.st = "Connecting"], "sim", "connect")
              IN Initialising(Emit(S1, "LeaveConnecting"))
    [] a = "initialise" ->
         IF ~InStandby(S) THEN S ELSE Initialising(Emit(S, "LeaveStandby"))
    [] a \in {"run", "run_for"} ->
         IF ~InStandby(S) \/ S.cur = "EnterStandby" THEN S
         ELSE Emit(Enter(Emit(S, "LeaveStandby"), "Executing"), "EnterExecuting")
    [] a = "hold" ->
         IF S.st # "Executing" \/ S.cur = "LeaveExecuting" THEN S
         ELSE Emit(Enter([Emit(S, "LeaveExecuting") EXCEPT !.pend = FALSE], "Standby"),
                   "EnterStandby")
    [] a = "hold_later" ->
         IF S.st # "Executing" \/ S.cur = "LeaveExecuting" THEN S
         ELSE [S EXCEPT !.pend = HasEvents(S)]
    [] a = "presim" ->  \* the scheduler is about to change the simulation time
         IF S.pend THEN Call([S EXCEPT !.pend = FALSE], "hold", "", "") ELSE S
    [] a = "exit" ->
         IF ~InStandby(S) THEN S
         ELSE LET S1 == Emit(Enter(Emit(S, "LeaveStandby"), "Exiting"), "EnterExiting")
              IN WalkAll(S1, "sim", "disconnect")
    [] a = "abort" -> DoAbort(S)
    [] a = "reconnect" ->
         IF ~InStandby(S) THEN S
         ELSE LET S1 == Emit(Enter(Emit(S, "LeaveStandby"), "Reconnecting"),
                             "EnterReconnecting")
                  S2 == IF n = "null" \/ S1.cs[Comp(S1, n)].k # "model"
                        THEN S1 ELSE WalkAll(S1, n, "connect")
              IN Emit(Enter(Emit(S2, "LeaveReconnecting"), "Standby"), "EnterStandby")
    [] a = "add_init" -> IF Open(S) THEN [S EXCEPT !.ini = Append(@, n)] ELSE S
    [] a = "add_model" ->
         IF k # "sim" THEN AddTo(S, n, "model", k, "kids")
         ELSE IF ~Open(S) THEN [S EXCEPT !.err = "InvalidSimulatorState"]
         ELSE AddTo(S, n, "model", "sim", "models")
    [] a = "add_more" -> AddTo(S, n, "model", k, "more")
    [] a = "add_service" ->
         IF ~Open(S) THEN [S EXCEPT !.err = "InvalidSimulatorState"]
         ELSE AddTo(S, n, k, "sim", "services")

RECURSIVE Reverse(_)
Reverse(s) == IF s = <<>> THEN <<>> ELSE Append(Reverse(Tail(s)), Head(s))
RECURSIVE Toks(_, _)
Toks(S, ts) == IF ts = <<>> THEN S ELSE Toks(Tok(S, Head(ts)), Tail(ts))

-----------------------------------------------------------------------------
Kinds == <<"logger", "event_manager", "link_registry", "resolver", "time_keeper",
           "scheduler">>
Obs(S) == [st |-> S.st, log |-> S.log,
           cs |-> [n \in Names(S) |-> StateOf(S, n)],
           svc |-> [i \in 1..6 |-> FirstOf(S, Kinds[i])]]
Fresh(S) == [S EXCEPT !.log = <<>>, !.err = "ok"]

Init == sim = Empty /\ out = [e |-> "ok", v |-> Obs(Empty)]
Gone(S) == S.st = "gone"

Apply(o) ==
  /\ ~Gone(sim) /\ Legal(sim, o.op, o.n, o.k)
  /\ LET S == Call(Fresh(sim), o.op, o.n, o.k)
     IN sim' = Fresh(S) /\ out' = [e |-> S.err, v |-> Obs(S)]
\* a callback that is met later calls the simulator
Arm(o) ==
  /\ ~Gone(sim)
  /\ sim' = [sim EXCEPT !.at = o.at, !.act = o.act, !.arg = o.n, !.kind = o.k]
  /\ out' = [e |-> "ok", v |-> Obs(sim)]
Load(o) ==
  /\ ~Gone(sim)
  /\ LET S0 == Fresh(sim)
         S == IF o.n \in GoodLibs
              THEN LET S1 == Tok(S0, "lib+:" \o o.n)
                   IN [S1 EXCEPT !.libs = Append(@, o.n), !.err = "ok"]
              ELSE IF o.n \in FalseLibs
              THEN [Tok(S0, "lib+:" \o o.n) EXCEPT !.err = "InvalidLibrary"]
              ELSE IF o.n \in IncompleteLibs THEN [S0 EXCEPT !.err = "InvalidLibrary"]
              ELSE [S0 EXCEPT !.err = "LibraryNotFound"]
     IN sim' = Fresh(S) /\ out' = [e |-> S.err, v |-> Obs(S)]
Service(o) ==
  /\ ~Gone(sim) /\ sim' = sim
  /\ out' = [e |-> "ok",
             v |-> IF \E i \in 1..Len(sim.cs) : sim.cs[i].n = o.n /\ sim.cs[i].c = "services"
                   THEN o.n ELSE ""]
\* destruction holds and exits first, then finalises the libraries, last
\* loaded first, then destroys every component once
Destroy(o) ==
  /\ ~Gone(sim)
  /\ LET S0 == Fresh(sim)
         S1 == Call(S0, "hold", "", "")
         S2 == Call(S1, "exit", "", "")
         L  == [i \in 1..Len(S2.libs) |-> "lib-:" \o S2.libs[i]]
         S3 == Toks(S2, Reverse(L))
     IN /\ sim' = [Empty EXCEPT !.st = "gone"]
        /\ out' = [e |-> "ok", v |-> [o |-> [st |-> "gone", log |-> S3.log],
                     del |-> [n \in {S3.cs[i].n : i \in {j \in 1..Len(S3.cs) : Talks(S3.cs[j].k)}}
                               |-> TRUE]]]

Calls == {"publish", "configure", "connect", "initialise", "run", "run_for", "hold",
          "hold_later", "presim", "exit", "abort", "reconnect", "add_init",
          "add_model", "add_more", "add_service"}
Do(o) == \/ o.op \in Calls /\ Apply(o)
         \/ o.op = "arm" /\ Arm(o)
         \/ o.op = "load" /\ Load(o)
         \/ o.op = "service" /\ Service(o)
         \/ o.op = "destroy" /\ Destroy(o)

-----------------------------------------------------------------------------
\* no transition leaves the simulator in a state it only passes through
Stable == sim.st \in {"Building", "Standby", "Executing", "Exiting", "Aborting", "gone"}
Quiet == sim.cur = ""
AbortIsFinal == [][sim.st = "Aborting" => sim'.st \in {"Aborting", "gone"}]_vars
Rank(s) == CASE s = "Created" -> 0 [] s = "Publishing" -> 1 [] s = "Configured" -> 2
             [] s = "Connected" -> 3 [] s = "Disconnected" -> 4
\* a component never goes back in its life cycle
Forward == [][\A i \in 1..Len(sim.cs) : i <= Len(sim'.cs) =>
                 Rank(sim.cs[i].s) <= Rank(sim'.cs[i].s)]_vars
\* a simulator that ran has only connected components
ConnectedFirst == sim.st = "Executing" /\ sim.log = <<>> =>
   \A i \in 1..Len(sim.cs) : sim.cs[i].s \in {"Connected", "Created"}
PendOnlyRunning == sim.pend => sim.st \in {"Executing", "Aborting"}
=============================================================================
