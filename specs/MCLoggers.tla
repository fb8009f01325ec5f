----------------------------- MODULE MCLoggers ------------------------------
EXTENDS Loggers, TLC, Json
CONSTANTS SimDepth
VARIABLE hist
MCInit == Init /\ hist = <<>>
Configs == {"log.rootLogger = a\nlog.appender.a=ConsoleAppender\nlog.appender.a.levels=Error\nlog.appender.a.layout.conversionPattern=%k %m%n",
            "log.rootLogger=a,b\nlog.appender.a=FileAppender\nlog.appender.a.File=a.log\nlog.appender.a.layout=SimpleLayout\nlog.appender.b=ConsoleAppender\nlog.appender.b.path=/M1.*\nlog.appender.b.layout.conversionPattern=%p %%",
            "log.appender.default.layout.conversionPattern=%S"}
Ops == [op : {"open"}, text : Configs] \cup [op : {"query"}, k : {"Error", "X"}]
       \cup [op : {"log"}, from : {"m", "n"}, kind : {3, 5}, m : {"z"}]
       \cup [op : {"times"}, d : {Zero}, S : {<<0, 1, 5>>}, E : {Zero}, M : {Zero}]
       \cup [op : {"store", "restore", "close"}]
MCNext == UNCHANGED hist /\ \E o \in Ops : Legal(o) /\ Do(o)
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Short == \A s \in Sinks : Len(sinks[s]) <= 16
View == <<on, apps, kinds, saved, tm, sinks>>
\* a kind keeps its identifier, but for restored ones
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Stable == [][on /\ on' => Prefix(kinds, kinds') \/ kinds' = saved]_vars
\* what is written stays, and each message adds to every appender that takes it
Grows == [][on /\ on' => \A s \in Sinks : Prefix(sinks[s], sinks'[s])]_vars
Queried == [][kinds' # kinds /\ on /\ on' /\ kinds' # saved => Len(kinds') = Len(kinds) + 1]_vars
-----------------------------------------------------------------------------
Pick(X) == RandomElement(X)
Lv(h) == Pick({"Error", "Error, Warning", "Information,Event,Debug", "", "X", " Error ,X,", "Nothing", ",Error"})
Pt(h) == Pick({"/M1", "/M1.*", ".*", "/M.", "/M1/C|/M2", ".*ep", "/M*1", "[", "*a", "/M1\\\\.ep", "/M1/C\\\\.ep|/", "", "<null>", "/", "(x", "/M1.C"})
Pn(h) == Pick({"%m%n", "%p %k %m%n", "%S\\n", "%S{%T} %m%n", "%d{%F %T}%t%E{%T}%n", "%M{%T}%n%M\\t%E%n", "100%% %m\\\\\\t\\a\\q", "%m%",
               "%x%m%n", "%d{%F", "%S{%T}%d{}%n", "%d%t%p", "{%m}", "%E{%F at %T}", "%S{}{", "%m\\", "%S{T=%T} %S{%T%n", "%M{t}%n", "  %k  ", "%k\\\"\\'\\?\\v\\b\\f\\r", "%%m%n"})
Ly(h) == Pick({"PatternLayout", "SimpleLayout", "OtherLayout", "PatternLayout ", "", "Pattern"})
Sp(h) == Pick({"=", " = ", "=\t", " ="})
Set(n, k, v) == "log.appender." \o n \o k \o Sp(1) \o v \o Pick({"\n", "\n", "  \n", "\r\n"})
Maybe(k, s) == IF Pick(1..k) = 1 THEN s ELSE ""
One(n, f) ==
  LET c == Pick({"ConsoleAppender", "FileAppender", "FileAppender", "NoAppender"})
      cf == IF c = "FileAppender" THEN c ELSE IF Pick(1..5) = 1 THEN c ELSE "ConsoleAppender" IN
  Maybe(9, "# appender " \o n \o "=1\n") \o Maybe(9, "   \n") \o Maybe(12, "nonsense\n")
  \o (IF Pick(1..12) = 1 THEN "" ELSE Set(n, "", cf))
  \o (IF f = "simulator.log" /\ Pick(1..2) = 1 THEN "" ELSE Set(n, ".File", f))
  \o Maybe(3, Set(n, ".layout", Ly(1)))
  \o (IF Pick(1..4) = 1 THEN "" ELSE Set(n, ".layout.conversionPattern", Pn(1)))
  \o Maybe(3, Set(n, ".levels", Lv(1))) \o Maybe(3, Set(n, ".path", Pt(1)))
  \o Maybe(8, Set(n, ".levels", Lv(1))) \o Maybe(12, "=x\n") \o Maybe(12, "log.appender." \o n \o "=\n")
Root(h) == Pick({"a,b", "a", "b , a", "a,b,c", "c,d", "", "a,,b", "a,", " ", "b"})
Config(h) ==
  CASE Pick(1..8) = 1 -> "log.rootLogger=a\nlog.appender.a=ConsoleAppender\nlog.appender.a.layout.conversionPattern=%m%n\n"
    [] Pick(1..8) = 1 -> One("default", "a.log")
    [] Pick(1..9) = 1 -> ""
    [] OTHER -> Maybe(9, "#x\n") \o (IF Pick(1..9) = 1 THEN "" ELSE "log.rootLogger" \o Sp(1) \o Root(1) \o "\n")
                \o One("a", "a.log") \o One("b", "b.log") \o One("c", Pick({"simulator.log", "a.log"}))
Moment(h) == <<Pick({0, 0, 1, 0 - 1, 9000, 0 - 9000, 15000}), Pick({0, 1, 43199, 43200, 86399, 3600}),
               Pick({0, 1, 999999999, 500000000, 7000})>>
Span(h) == <<Pick({0, 0, 0, 0 - 1, 4, 5, 100}), Pick({0, 1, 59, 60, 3599, 86399}), Pick({0, 1, 999999999, 20})>>
Kinds == {"X", "Y", "Z", "Error", "Information", "Nothing", ""}
PickOp(h) ==
  LET w == Pick(1..40) IN
  CASE ~on /\ w <= 36 -> [op |-> "open", text |-> Config(h)]
    [] w <= 24 -> [op |-> "log", from |-> Pick(DOMAIN Paths), kind |-> Pick({0, 1, 2, 3, 3, 3, 4, 5, 6, 7, 99}),
                   m |-> Pick({"hello", "", "50%", "%p", "a b\tc", "line\nnext", "\\t", "{}"})]
    [] w <= 29 -> [op |-> "query", k |-> Pick(Kinds)]
    [] w <= 33 -> [op |-> "times", d |-> Moment(h), S |-> Span(h), E |-> Moment(h), M |-> Span(h)]
    [] w <= 35 -> [op |-> "store"] [] w <= 37 -> [op |-> "restore"]
    [] OTHER -> [op |-> "close"]
BurstOp(h) == [op |-> "burst", ks |-> [i \in 1..6 |-> Pick(Kinds)], n |-> Pick({1, 20}), ids |-> <<>>, seen |-> <<>>]
SimNext == /\ Len(hist) < SimDepth
           /\ \E o \in {PickOp(i) : i \in 1..1} : \E b \in {Pick(1..i) : i \in 3..3} : \E bo \in {BurstOp(i) : i \in 1..1} :
                LET p == IF on /\ Alone /\ b = 1 THEN bo
                         ELSE IF Legal(o) THEN o ELSE IF on THEN [op |-> "close"] ELSE [op |-> "open", text |-> ""] IN
                IF p.op = "burst"
                THEN /\ on' = FALSE /\ apps' = <<>> /\ kinds' = <<>> /\ UNCHANGED <<saved, tm, sinks, out>>
                     /\ hist' = Append(hist, p)
                ELSE Do(p) /\ hist' = Append(hist, p)
SimSpec == MCInit /\ [][SimNext]_<<vars, hist>>
Emitted == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
