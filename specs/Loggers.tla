------------------------------ MODULE Loggers -------------------------------
(* The log service: kinds of messages, the appenders its configuration file    *)
(* describes, and what each of them writes.                                    *)
(*   on     a logger exists       apps   its appenders, in order               *)
(*   kinds  names of the kinds, a kind being its position from 0               *)
(*   saved  the kinds stored last                                              *)
(*   tm     the times of the time keeper (Zulu, simulation, epoch, mission)    *)
(*   sinks  what the console and each file hold                                *)
(* Times are <<days, seconds, nanoseconds>> as in Times.                       *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES on, apps, kinds, saved, tm, sinks, out
vars == <<on, apps, kinds, saved, tm, sinks, out>>
Clocks == INSTANCE Times WITH dur <- tm.S, dat <- tm.d
-----------------------------------------------------------------------------
\* texts
Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
RECURSIVE Find(_, _, _)
Find(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE Find(s, c, i + 1)
Blank == {" ", "\t", "\r", "\f", "\n"}
RECURSIVE Ltrim(_)
Ltrim(s) == IF s # "" /\ Ch(s, 1) \in Blank THEN Ltrim(From(s, 2)) ELSE s
RECURSIVE Rtrim(_)
Rtrim(s) == IF s # "" /\ Ch(s, Len(s)) \in Blank THEN Rtrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == Rtrim(Ltrim(s))
RECURSIVE Cut(_, _)
Cut(s, c) == LET i == Find(s, c, 1) IN
             IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Cut(From(s, i + 1), c)
\* names between commas; nothing after the last comma is no name
Names(s) == LET p == Cut(s, ",")
                q == [i \in 1..Len(p) |-> Trim(p[i])] IN
            IF q[Len(q)] = "" THEN SubSeq(q, 1, Len(q) - 1) ELSE q
Escape(c) == CASE c = "n" -> "\n" [] c = "t" -> "\t" [] c = "a" -> "^7" [] c = "b" -> "^8"
               [] c = "f" -> "^12" [] c = "r" -> "^13" [] c = "v" -> "^11" [] OTHER -> c
RECURSIVE Unescape(_)
Unescape(s) == IF s = "" THEN ""
               ELSE IF Ch(s, 1) # "\\" THEN Ch(s, 1) \o Unescape(From(s, 2))
               ELSE IF Len(s) = 1 THEN "" ELSE Escape(Ch(s, 2)) \o Unescape(From(s, 3))
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Pad(_, _)
Pad(n, w) == IF w = 0 THEN "" ELSE Pad(n \div 10, w - 1) \o Digit[(n % 10) + 1]
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN Digit[n + 1] ELSE Dec(n \div 10) \o Digit[(n % 10) + 1]
-----------------------------------------------------------------------------
\* the configuration file: names and values, the first value of a name counts
Kept(l) == Trim(l) # "" /\ Ch(Trim(l), 1) # "#"
HasEq(l) == Find(Trim(l), "=", 1) # 0
Pair(l) == LET t == Trim(l)
               i == Find(t, "=", 1) IN <<Rtrim(SubSeq(t, 1, i - 1)), Ltrim(From(t, i + 1))>>
Lines(text) == SelectSeq(Cut(text, "\n"), Kept)
Props(text) == LET ls == SelectSeq(Lines(text), HasEq) IN [i \in 1..Len(ls) |-> Pair(ls[i])]
Has(ps, n) == \E i \in 1..Len(ps) : ps[i][1] = n
Value(ps, n) == ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = n /\ \A j \in 1..i - 1 : ps[j][1] # n][2]
Invalid(text) == Len(Lines(text)) - Len(Props(text))
\* paths: an expression of characters, '.', '*' and alternatives
RECURSIVE Match(_, _, _, _)
Match(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE LET esc == Ch(p, i) = "\\"
           k == IF esc THEN i + 2 ELSE i + 1
           one == j <= Len(s) /\ (IF esc THEN Ch(p, i + 1) = Ch(s, j) ELSE Ch(p, i) \in {".", Ch(s, j)}) IN
       IF k <= Len(p) /\ Ch(p, k) = "*"
       THEN Match(p, k + 1, s, j) \/ (one /\ Match(p, i, s, j + 1))
       ELSE one /\ Match(p, k, s, j + 1)
Matches(p, s) == LET alt == Cut(p, "|") IN \E a \in 1..Len(alt) : Match(alt[a], 1, s, 1)
Wrong == {"[", "(", ")"}
Valid(p) == /\ \A i \in 1..Len(p) : Ch(p, i) \notin Wrong
            /\ p = "" \/ Ch(p, 1) # "*"
            /\ \A i \in 2..Len(p) : Ch(p, i) = "*" => Ch(p, i - 1) # "*"
            /\ p = "" \/ Ch(p, Len(p)) # "\\"
\* an appender
Default == "%d{%F %T}%t%S%t%p%t%k%t%m%n"
Layouts == {"SimpleLayout", "PatternLayout"}
Made(ps, n) ==
  LET base == "log.appender." \o n
      get(k, dflt) == IF Has(ps, base \o k) THEN Value(ps, base \o k) ELSE dflt
      lay == get(".layout", "PatternLayout")
      re == Unescape(get(".path", "")) IN
  [sink |-> IF Has(ps, base) /\ Value(ps, base) = "FileAppender" THEN get(".File", "simulator.log") ELSE "console",
   simple |-> lay = "SimpleLayout",
   \* a layout of no known kind is replaced by a pattern
   pattern |-> IF Has(ps, base \o ".layout.conversionPattern")
               THEN Unescape(Value(ps, base \o ".layout.conversionPattern")) ELSE Default,
   levels |-> LET ns == Names(get(".levels", "")) IN {ns[i] : i \in 1..Len(ns)},
   filter |-> Has(ps, base \o ".path") /\ Valid(re),
   path |-> re,
   bad |-> (IF lay \in Layouts THEN 0 ELSE 1) + (IF Has(ps, base \o ".path") /\ ~Valid(re) THEN 1 ELSE 0)]
Known(ps, n) == Has(ps, "log.appender." \o n)
                /\ Value(ps, "log.appender." \o n) \in {"ConsoleAppender", "FileAppender"}
Listed(ps) == IF Has(ps, "log.rootLogger") THEN Names(Value(ps, "log.rootLogger")) ELSE <<>>
Good(ps) == LET ns == Listed(ps) IN SelectSeq(ns, LAMBDA n : Known(ps, n))
Apps(text) == LET ps == Props(text) IN
              IF ~Has(ps, "log.rootLogger") THEN <<[Made(ps, "default") EXCEPT !.sink = "console"]>>
              ELSE [i \in 1..Len(Good(ps)) |-> Made(ps, Good(ps)[i])]
RECURSIVE Sum(_, _)
Sum(a, i) == IF i > Len(a) THEN 0 ELSE a[i].bad + Sum(a, i + 1)
\* what is reported: lines, appenders, layouts and paths that are wrong
Reports(text) == Invalid(text) + (Len(Listed(Props(text))) - Len(Good(Props(text)))) + Sum(Apps(text), 1)
-----------------------------------------------------------------------------
\* what an appender writes of a message
Number(t) == LET neg == t[1] < 0
                 p == IF neg THEN Clocks!Neg(t) ELSE t
                 secs == p[1] * 86400 + p[2] IN
             (IF neg THEN "-" ELSE "") \o (IF secs = 0 THEN Dec(p[3]) ELSE Dec(secs) \o Pad(p[3], 9))
Date(t) == LET c == Clocks!Civil(t) IN Pad(c.y, 4) \o "-" \o Pad(c.m, 2) \o "-" \o Pad(c.d, 2)
TimeOf(t) == LET c == Clocks!Civil(t) IN
             Pad(c.hh, 2) \o ":" \o Pad(c.mi, 2) \o ":" \o Pad(c.ss, 2) \o "." \o Pad(c.ns, 9)
Lasts(t) == LET c == Clocks!Clock(t) IN
            (IF c.neg THEN "-" ELSE "") \o (IF c.hh < 100 THEN Pad(c.hh, 2) ELSE Dec(c.hh)) \o ":"
            \o Pad(c.mi, 2) \o ":" \o Pad(c.ss, 2) \o "." \o Pad(c.ns, 9)
\* formats: %T of a time, %F and %T of a date, other characters
RECURSIVE Format(_, _, _)
Format(f, c, t) == IF f = "" THEN ""
                   ELSE IF Ch(f, 1) # "%" THEN Ch(f, 1) \o Format(From(f, 2), c, t)
                   ELSE (CASE SubSeq(f, 2, 2) = "T" -> (IF c \in {"d", "E"} THEN TimeOf(t) ELSE Lasts(t))
                           [] SubSeq(f, 2, 2) = "F" -> Date(t)
                           [] OTHER -> "?") \o Format(From(f, 3), c, t)
Stamps == {"d", "S", "E", "M"}
RECURSIVE Render(_, _, _)
Render(p, i, e) ==
  IF i > Len(p) THEN ""
  ELSE IF Ch(p, i) # "%" THEN Ch(p, i) \o Render(p, i + 1, e)
  ELSE IF i = Len(p) THEN "%"
  ELSE LET c == Ch(p, i + 1)
           braced == c \in Stamps /\ i + 2 <= Len(p) /\ Ch(p, i + 2) = "{"
           q == IF braced THEN Find(p, "}", i + 2) ELSE 0
           stop == IF braced THEN (IF q = 0 THEN Len(p) ELSE q) ELSE i + 1
           fmt == IF ~braced THEN "" ELSE IF q = 0 THEN From(p, i + 3) ELSE SubSeq(p, i + 3, q - 1) IN
       (CASE c = "p" -> e.p [] c = "k" -> e.k [] c = "m" -> e.m [] c = "t" -> "\t" [] c = "n" -> "\n"
          [] c = "%" -> "%"
          [] c \in Stamps -> (IF fmt = "" THEN Number(e.t[c]) ELSE Format(fmt, c, e.t[c]))
          [] OTHER -> "%" \o c)
       \o Render(p, stop + 1, e)
Simple(e) == Lasts(e.t.S) \o "\t" \o e.p \o "\t" \o e.k \o "\t" \o e.m \o "\n"
Text(a, e) == IF a.simple THEN Simple(e) ELSE Render(a.pattern, 1, e)
Takes(a, e) == (a.levels = {} \/ e.k \in a.levels) /\ (a.filter => Matches(a.path, e.p))
RECURSIVE Written(_, _, _, _)
Written(s, as, i, e) == IF i > Len(as) THEN s
                        ELSE Written(IF Takes(as[i], e) THEN [s EXCEPT ![as[i].sink] = @ \o Text(as[i], e)] ELSE s,
                                     as, i + 1, e)
-----------------------------------------------------------------------------
Sinks == {"console", "a.log", "b.log", "simulator.log"}
Files == Sinks \ {"console"}
Basic == <<"Information", "Event", "Warning", "Error", "Debug">>
Paths == [null |-> "<null>", sim |-> "/", m |-> "/M1", n |-> "/M2", c |-> "/M1/C", e |-> "/M1.ep", f |-> "/M1/C.ep"]
Zero == <<0, 0, 0>>
Init == /\ on = FALSE /\ apps = <<>> /\ kinds = <<>> /\ saved = <<>>
        /\ tm = [d |-> Zero, S |-> Zero, E |-> Zero, M |-> Zero]
        /\ sinks = [s \in Sinks |-> ""] /\ out = [e |-> "ok", v |-> <<>>]
R(v) == out' = [e |-> "ok", v |-> v]
\* a logger is made under some configuration file, or none: its files are emptied
Opened(as) == [s \in Sinks |-> IF \E i \in 1..Len(as) : as[i].sink = s THEN "" ELSE sinks[s]]
Open(o) == /\ on' = TRUE /\ apps' = Apps(o.text) /\ kinds' = Basic
           /\ sinks' = [Opened(Apps(o.text)) EXCEPT !["console"] = ""]
           /\ UNCHANGED <<saved, tm>> /\ R(<<Dec(Reports(o.text))>>)
Position(k) == CHOOSE i \in 1..Len(kinds) : kinds[i] = k
In(k, s) == \E i \in 1..Len(s) : s[i] = k
Query(o) == /\ kinds' = IF In(o.k, kinds) THEN kinds ELSE Append(kinds, o.k)
            /\ R(<<Dec((CHOOSE i \in 1..Len(kinds') : kinds'[i] = o.k) - 1)>>)
            /\ UNCHANGED <<on, apps, saved, tm, sinks>>
KindName(n) == IF n < Len(kinds) THEN kinds[n + 1] ELSE "<unknown: " \o Dec(n) \o ">"
Log(o) == /\ sinks' = Written(sinks, apps, 1, [p |-> Paths[o.from], k |-> KindName(o.kind), m |-> o.m, t |-> tm])
          /\ R(<<>>) /\ UNCHANGED <<on, apps, kinds, saved, tm>>
Times(o) == tm' = [d |-> o.d, S |-> o.S, E |-> o.E, M |-> o.M] /\ R(<<>>) /\ UNCHANGED <<on, apps, kinds, saved, sinks>>
Store(o) == saved' = kinds /\ R(<<>>) /\ UNCHANGED <<on, apps, kinds, tm, sinks>>
Restore(o) == kinds' = saved /\ R(<<>>) /\ UNCHANGED <<on, apps, saved, tm, sinks>>
\* when the logger is deleted all messages are written
Close(o) == /\ on' = FALSE /\ apps' = <<>> /\ kinds' = <<>> /\ UNCHANGED <<saved, tm, sinks>>
            /\ R(<<sinks["console"], sinks["a.log"], sinks["b.log"], sinks["simulator.log"]>>)
\* several threads ask for two kinds each (o.ks[2t-1], o.ks[2t], given
\* o.ids[2t-1], o.ids[2t]) and log o.n messages each; o.seen is the end of what was
\* written when the logger was deleted: <<thread, number>>, in order for a thread
Threads(o) == 1..Len(o.ks) \div 2
Merged(o) ==
  /\ Len(o.seen) = o.n * (Len(o.ks) \div 2)
  /\ \A t \in Threads(o) : SelectSeq(o.seen, LAMBDA x : x[1] = t) = [i \in 1..o.n |-> <<t, i>>]
Max(S) == CHOOSE m \in S : \A x \in S : x <= m
Grown(o) == [i \in 1..Max({o.ids[j] + 1 : j \in 1..Len(o.ids)} \cup {Len(kinds)}) |->
               IF i <= Len(kinds) THEN kinds[i]
               ELSE IF \E j \in 1..Len(o.ks) : o.ids[j] = i - 1
               THEN o.ks[CHOOSE j \in 1..Len(o.ks) : o.ids[j] = i - 1] ELSE ""]
Burst(o) ==
  /\ LET g == Grown(o) IN
     IF /\ Merged(o)
        /\ Len(o.ids) = Len(o.ks)
        /\ \A j \in 1..Len(o.ks) : g[o.ids[j] + 1] = o.ks[j]
        /\ \A i, j \in 1..Len(g) : g[i] = g[j] => i = j
     THEN R(<<sinks["console"]>>) ELSE out' = [e |-> "wrong", v |-> <<>>]
  /\ on' = FALSE /\ apps' = <<>> /\ kinds' = <<>> /\ UNCHANGED <<saved, tm, sinks>>
Alone == /\ Len(apps) = 1 /\ apps[1].sink = "console" /\ ~apps[1].filter /\ apps[1].levels = {}
         /\ ~apps[1].simple /\ apps[1].pattern = "%m%n"
\* formats the specification covers, and files that exist here
Covered(f, c) == \A i \in 1..Len(f) : Ch(f, i) = "%" =>
                   i < Len(f) /\ (Ch(f, i + 1) = "T" \/ (Ch(f, i + 1) = "F" /\ c \in {"d", "E"}))
CoveredIn(p) == \A i \in 1..Len(p) - 2 :
                  Ch(p, i) = "%" /\ Ch(p, i + 1) \in Stamps /\ Ch(p, i + 2) = "{"
                  => LET q == Find(p, "}", i + 2) IN
                     Covered(IF q = 0 THEN From(p, i + 3) ELSE SubSeq(p, i + 3, q - 1), Ch(p, i + 1))
LegalText(t) == LET a == Apps(t) IN
  /\ \A i \in 1..Len(a) : a[i].sink \in Sinks /\ CoveredIn(a[i].pattern)
  /\ \A i, j \in 1..Len(a) : a[i].sink = a[j].sink /\ i # j => a[i].sink = "console"
SmallTime(t) == t[1] >= 0 - 20000 /\ t[1] <= 20000
Legal(o) == CASE o.op = "open" -> ~on /\ LegalText(o.text)
              [] o.op = "times" -> SmallTime(o.d) /\ SmallTime(o.S) /\ SmallTime(o.E) /\ SmallTime(o.M)
              [] o.op = "restore" -> on /\ saved # <<>>
              [] o.op = "burst" -> on /\ Alone
              [] OTHER -> on
Do(o) == CASE o.op = "open" -> Open(o) [] o.op = "query" -> Query(o) [] o.op = "log" -> Log(o)
           [] o.op = "times" -> Times(o) [] o.op = "store" -> Store(o) [] o.op = "restore" -> Restore(o)
           [] o.op = "burst" -> Burst(o) [] o.op = "close" -> Close(o)
Distinct == \A i, j \in 1..Len(kinds) : kinds[i] = kinds[j] => i = j
Predefined == on => SubSeq(kinds, 1, 5) = Basic
=============================================================================
