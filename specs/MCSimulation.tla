---------------------------- MODULE MCSimulation ----------------------------
EXTENDS Simulation, Json
CONSTANTS SimDepth, Rich
VARIABLE hist
Nm == IF Rich THEN {"a", "b", "c", "d"} ELSE {"a", "b"}
Op(S, N, K) == [op : S, n : N, k : K]
Plain == Op({"publish", "configure", "connect", "initialise", "run", "hold", "hold_later",
             "exit", "abort", "presim"}, {""}, {""}) \cup
         (IF Rich THEN Op({"run_for"}, {""}, {""}) ELSE {})
Adds == Op({"add_model"}, Nm, {"sim", "a"} \cup (IF Rich THEN Nm ELSE {})) \cup
        Op({"add_init"}, IF Rich THEN {"i1", "i2"} ELSE {"i1"}, {""}) \cup
        Op({"reconnect"}, (IF Rich THEN Nm \cup {"null"} ELSE {"a"}), {""}) \cup
        (IF Rich THEN Op({"add_service"}, {"s"}, {"plain"}) ELSE {}) \cup
        Op({"add_service"}, {"em"}, {"event_manager"}) \cup
        IF Rich THEN Op({"add_more"}, Nm, Nm) \cup
           Op({"add_service"}, {"a", "t", "u"}, {"plain", "logger", "event_manager",
               "link_registry", "resolver", "time_keeper"})
        ELSE {}
Evs == {"ev:LeaveConnecting", "ev:EnterInitialising", "ev:LeaveInitialising",
        "ev:EnterStandby", "ev:LeaveStandby", "ev:EnterExecuting", "ev:LeaveExecuting",
        "ev:EnterExiting", "ev:EnterReconnecting", "ev:LeaveReconnecting"}
Cbs == {"cfg:a", "con:a", "dis:a", "init:i1"} \cup
       IF Rich THEN {"pub:a", "con:s", "pub:b", "con:b", "cfg:s", "init:i2", "con:c", "dis:s", "lib+:good1"} ELSE {}
Arms == {[op |-> "arm", at |-> t, act |-> c.op, n |-> c.n, k |-> c.k] :
            t \in Evs \cup Cbs,
            c \in IF Rich THEN Plain \cup Adds
                 ELSE Op({"connect", "initialise", "run", "hold", "hold_later", "exit", "abort"},
                         {""}, {""}) \cup Op({"add_model"}, {"b"}, {"sim", "a"})} \cup
        {[op |-> "arm", at |-> t, act |-> "throw", n |-> "", k |-> ""] : t \in Evs}
Libs == {[op |-> "load", n |-> x, k |-> ""] :
            x \in {"good1", "good2", "refuses", "noinit", "nofin", "nosuch"}}
Others == [op : {"destroy"}] \cup [op : {"service"}, n : Nm \cup {"s", "em"}]
MCInit == Init /\ hist = <<>>
All == Plain \cup Adds \cup Arms \cup Others \cup (IF Rich THEN Libs ELSE {})
MCNext == \E o \in All : (o.op = "arm" => sim.at = "" /\ HasEvents(sim)) /\
             Do(o) /\ hist' = IF SimDepth > 0 THEN Append(hist, o) ELSE hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
\* simulation: armed calls would drown the others; the last call destroys
SimOps == IF Len(hist) = SimDepth - 1 THEN {[op |-> "destroy"]}
          ELSE Plain \cup {RandomElement(Adds) : i \in 1..8} \cup
               {RandomElement(Arms) : i \in 1..6} \cup {RandomElement(Libs) : i \in 1..2}
SimNext == Len(hist) < SimDepth /\ \E o \in SimOps :
             /\ o.op = "abort" => Len(hist) > SimDepth \div 2
             /\ Do(o) /\ hist' = Append(hist, o)
SimSpec == MCInit /\ [][SimNext]_<<vars, hist>>
Small == Len(sim.cs) <= 3 /\ Len(sim.ini) <= 1 
View == sim
Emitted == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
