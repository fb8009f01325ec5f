---------------------------- MODULE MCLibraries ----------------------------
EXTENDS Libraries, TLC, Json
CONSTANTS SimDepth
VARIABLE hist
MCLibs == {"xsmp_services", "xsmp_logger", "noinit"}
MCBroken == {"nosuch"}
MCPkg == [xsmp_services |-> "services", xsmp_logger |-> "logger", noinit |-> "noinit"]
AnyErr == [e |-> "ok", v |-> FALSE]
Bads == {<<>>, <<"logger">>, <<"scheduler">>, <<"resolver", "link_registry">>}
Ops == [op : {"load"}, lib : MCLibs \cup MCBroken \cup {"null"}] \cup
       [op : {"close"}, lib : MCLibs] \cup
       [op : {"last_error"}, out : {AnyErr}] \cup
       [op : {"symbol"}, lib : MCLibs, name : {"Initialise", "Finalise", "nosym", "null"}] \cup
       [op : {"init"}, lib : {"static", "xsmp_services", "xsmp_logger"},
        sim : {"s0", "s1", "null"}, reg : {"r0", "null"}, bad : Bads] \cup
       [op : {"fin"}, lib : {"static", "xsmp_services", "xsmp_logger"}, bad : Bads]
MCInit == Init /\ hist = <<>>
MCNext == \E o \in Ops : Do(o) /\
             hist' = IF SimDepth > 0 THEN Append(hist, o) ELSE hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Small == \A l \in Libs : count[l] <= 2
View == <<count, err, inited>>
Emit == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
