------------------------------ MODULE MCTimes ------------------------------
EXTENDS Times, TLC, Json
CONSTANTS Stride, SimDepth
VARIABLE hist
Units == {"ns", "us", "ms", "s", "mn", "h", "d", "w"}
Seconds == {0, 1, 43199, 43200, 86399}
Nanos == {0, 1, 999, 1000, 999999999}
Days == {d \in (0 - 88000)..88000 : d % 997 = 0}
MCInit == /\ Init /\ hist = <<>>
Pairs == {<<d, s, n>> : d \in {0 - 8, 0 - 1, 0, 1, 7}, s \in Seconds, n \in Nanos}
Starts == {[op |-> "dset", a |-> a] : a \in Pairs}
          \cup {[op |-> "tset", a |-> <<d, s, 999999999>>] : d \in Days, s \in {0, 43200, 86399}}
Steps == {[op |-> "dadd", a |-> a] : a \in {<<1, 0, 0>>, <<0 - 1, 86399, 999999999>>}}
         \cup {[op |-> "dmul", k |-> k] : k \in {0 - 3, 2}}
MCNext == /\ UNCHANGED hist
          /\ \/ dur = Zero /\ dat = Zero /\ \E o \in Starts : Legal(o) /\ Do(o)
             \/ dur \in Pairs /\ dat = Zero /\ \E o \in Steps : Legal(o) /\ Do(o)
             \/ dat[1] \in Days /\ dat # Zero /\ \E k \in 1..996 :
                  (k % Stride = 0 \/ dat[1] = 997) /\ Do([op |-> "tadd", a |-> <<k, 0, 0>>])
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Canonical(a) == a[2] \in 0..Day - 1 /\ a[3] \in 0..Giga - 1
Group == /\ Canonical(dur) /\ Canonical(dat) /\ Canonical(Neg(dur))
         /\ Add(dur, Neg(dur)) = Zero /\ Sub(Zero, dur) = Neg(dur)
         /\ Times(3, dur) = Add(dur, Add(dur, dur))
         /\ FromClock(Clock(dur)) = dur
         /\ Compare(dur, Add(dur, <<0, 0, 1>>)) = "lt"
         /\ Compare(dur, Zero) = (IF Clock(dur).neg THEN "lt" ELSE IF dur = Zero THEN "eq" ELSE "gt")
Units1 == /\ \A u \in Units : /\ Trunc(u, Trunc(u, dur)) = Trunc(u, dur)
                              /\ Neg(Trunc(u, dur)) = Trunc(u, Neg(dur))
                              /\ Less(Sub(dur, Trunc(u, dur)), Unit(u))
          /\ Times(1000, Unit("ns")) = Unit("us") /\ Times(1000, Unit("us")) = Unit("ms")
          /\ Times(1000, Unit("ms")) = Unit("s") /\ Times(60, Unit("s")) = Unit("mn")
          /\ Times(60, Unit("mn")) = Unit("h") /\ Times(24, Unit("h")) = Unit("d")
          /\ Times(7, Unit("d")) = Unit("w")
\* every instant is one date, the next day is the next date
Calendar == /\ ValidCivil(Civil(dat)) /\ Instant(Civil(dat)) = dat
            /\ LET c == Civil(dat)
                   e == Civil(Add(dat, <<1, 0, 0>>)) IN
               /\ c.hh = e.hh /\ c.mi = e.mi /\ c.ss = e.ss /\ c.ns = e.ns
               /\ \/ e.y = c.y /\ e.m = c.m /\ e.d = c.d + 1
                  \/ e.y = c.y /\ e.m = c.m + 1 /\ e.d = 1 /\ c.d = Month(c.y, c.m)
                  \/ e.y = c.y + 1 /\ e.m = 1 /\ e.d = 1 /\ c.m = 12 /\ c.d = 31
Known == /\ Civil(Zero) = [y |-> 2000, m |-> 1, d |-> 1, hh |-> 12, mi |-> 0, ss |-> 0, ns |-> 0]
         /\ DayOf(1970, 1, 1) = 0 /\ DayOf(2000, 3, 1) = 11017 /\ DayOf(1900, 3, 1) - DayOf(1900, 2, 28) = 1
-----------------------------------------------------------------------------
Pick(X) == RandomElement(X)
PickS(h) == CASE Pick(1..3) = 1 -> Pick(Seconds) [] OTHER -> Pick(0..Day - 1)
PickN(h) == CASE Pick(1..3) = 1 -> Pick(Nanos) [] OTHER -> Pick(0..Giga - 1)
PickD(h) == CASE Pick(1..3) = 1 -> Pick({0 - 1, 0, 1}) [] Pick(1..2) = 1 -> Pick((0 - 500)..500)
              [] OTHER -> Pick((0 - 88000)..88000)
AnyTime(h) == <<PickD(h), PickS(h), PickN(h)>>
\* close to a given time
Near(a, h) == CASE Pick(1..4) = 1 -> a
                [] Pick(1..3) = 1 -> Add(a, Norm(0, 0, Pick({0 - 1, 1, 1000})))
                [] Pick(1..2) = 1 -> Add(a, Norm(0, Pick({0 - 1, 1, 86400}), 0))
                [] OTHER -> AnyTime(h)
PickK(u, h) == CASE u = "w" -> Pick((0 - 900)..900) [] u = "d" -> Pick((0 - 3000)..3000)
                 [] OTHER -> Pick((0 - 10000)..10000)
PickC(h) == LET y == Pick(1760..2240)
                m == Pick(1..12) IN
            [y |-> y, m |-> m,
             d |-> CASE Pick(1..3) = 1 -> Month(y, m) [] OTHER -> Pick(1..Month(y, m)),
             hh |-> Pick(0..23), mi |-> Pick(0..59), ss |-> Pick(0..59), ns |-> PickN(h)]
PickOp(h) ==
  LET w == Pick(1..26) u == Pick(Units) IN
  CASE w = 1 -> [op |-> "dset", how |-> Pick({"made", "number", "chrono", "copy"}), a |-> AnyTime(h)]
    [] w = 2 -> [op |-> "dmade", how |-> Pick({"function", "literal", "chrono", "assign"}), k |-> PickK(u, h), u |-> u]
    [] w = 3 -> [op |-> Pick({"dadd", "dsub"}), a |-> AnyTime(h)]
    [] w = 4 -> [op |-> "dplus", how |-> Pick({"chrono", "own"}), k |-> PickK(u, h), u |-> u]
    [] w = 5 -> [op |-> "dmul", k |-> Pick((0 - 40)..40)]
    [] w = 6 -> [op |-> "dneg"]
    [] w = 7 -> [op |-> "dinc", k |-> Pick({0 - 1, 1}), post |-> Pick(BOOLEAN)]
    [] w = 8 -> [op |-> "dcmp", a |-> Near(dur, h)]
    [] w = 9 -> [op |-> "dcmpu", k |-> PickK(u, h), u |-> u]
    [] w = 10 -> [op |-> "dto", u |-> u]
    [] w = 11 -> [op |-> "dfmt", how |-> Pick({"text", "string", "stream", "print", "file"})]
    [] w = 12 -> [op |-> "dparse", how |-> Pick({"text", "stream"}), c |-> Clock(<<0, PickS(h), PickN(h)>>)]
    [] w = 13 -> [op |-> "dback"]
    [] w = 14 -> [op |-> "dbad", t |-> Pick({"", "abc", "12", "12:", "12:34", ":", "12-34-56"})]
    [] w = 15 -> [op |-> "tset", how |-> Pick({"made", "number", "chrono", "copy", "assign"}), a |-> AnyTime(h)]
    [] w = 16 -> [op |-> Pick({"tadd", "tsub"}), how |-> Pick({"in", "left", "right"}), a |-> AnyTime(h)]
    [] w = 17 -> [op |-> "taddu", how |-> Pick({"in", "left", "right", "minus", "out"}), k |-> PickK(u, h), u |-> u]
    [] w = 18 -> [op |-> "tinc", k |-> Pick({0 - 1, 1}), post |-> Pick(BOOLEAN)]
    [] w = 19 -> [op |-> "tcmp", a |-> Near(dat, h)]
    [] w \in {20, 21} -> [op |-> "tfmt", how |-> Pick({"text", "string", "stream", "print", "file"})]
    [] w = 22 -> [op |-> "tpoint", u |-> Pick({"ns", "us", "ms", "s"})]
    [] w = 23 -> [op |-> "tfrom", how |-> Pick({"made", "assign"}), a |-> AnyTime(h)]
    [] w \in {24, 25} -> [op |-> "tparse", how |-> Pick({"text", "stream"}), c |-> PickC(h)]
    [] OTHER -> [op |-> "tback"]
SimNext == /\ Len(hist) < SimDepth
           /\ \E o \in {PickOp(i) : i \in 1..1} :
                IF Legal(o) THEN Do(o) /\ hist' = Append(hist, o)
                ELSE LET p == [op |-> "dfmt", how |-> "text"] IN Do(p) /\ hist' = Append(hist, p)
SimSpec == MCInit /\ [][SimNext]_<<vars, hist>>
Emitted == (SimDepth > 0 /\ Len(hist) = SimDepth) => PrintT("@@" \o ToJson(hist))
=============================================================================
