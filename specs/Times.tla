------------------------------- MODULE Times -------------------------------
(* Durations and dates.  A time is a number of nanoseconds, written as         *)
(* <<days, seconds of the day, nanoseconds of the second>> with the last two   *)
(* in range, so that the whole 64-bit range is exact in the checker.           *)
(*   dur, dat   the duration and the date (from 2000-01-01 12:00:00) held      *)
EXTENDS Integers, Sequences

VARIABLES dur, dat, out
vars == <<dur, dat, out>>
Day == 86400
Giga == 1000000000
Norm(d, s, n) == LET c == n \div Giga
                     t == s + c IN <<d + (t \div Day), t % Day, n % Giga>>
Zero == <<0, 0, 0>>
Add(a, b) == Norm(a[1] + b[1], a[2] + b[2], a[3] + b[3])
Neg(a) == Norm(0 - a[1], 0 - a[2], 0 - a[3])
Sub(a, b) == Norm(a[1] - b[1], a[2] - b[2], a[3] - b[3])
RECURSIVE Times(_, _)
Times(k, a) == IF k < 0 THEN Neg(Times(0 - k, a))
               ELSE IF k = 0 THEN Zero
               ELSE LET h == Times(k \div 2, a)
                        d == Add(h, h) IN IF k % 2 = 0 THEN d ELSE Add(d, a)
Less(a, b) == \/ a[1] < b[1]
              \/ a[1] = b[1] /\ a[2] < b[2]
              \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Compare(a, b) == IF Less(a, b) THEN "lt" ELSE IF a = b THEN "eq" ELSE "gt"
Unit(u) == CASE u = "ns" -> <<0, 0, 1>>
             [] u = "us" -> <<0, 0, 1000>>
             [] u = "ms" -> <<0, 0, 1000000>>
             [] u = "s" -> <<0, 1, 0>>
             [] u = "mn" -> <<0, 60, 0>>
             [] u = "h" -> <<0, 3600, 0>>
             [] u = "d" -> <<1, 0, 0>>
             [] u = "w" -> <<7, 0, 0>>
\* the part of a time that a coarser unit keeps: towards zero
Trunc(u, a) ==
  LET neg == a[1] < 0
      p == IF neg THEN Neg(a) ELSE a
      q == CASE u = "ns" -> p
             [] u = "us" -> <<p[1], p[2], p[3] - (p[3] % 1000)>>
             [] u = "ms" -> <<p[1], p[2], p[3] - (p[3] % 1000000)>>
             [] u = "s" -> <<p[1], p[2], 0>>
             [] u = "mn" -> <<p[1], p[2] - (p[2] % 60), 0>>
             [] u = "h" -> <<p[1], p[2] - (p[2] % 3600), 0>>
             [] u = "d" -> <<p[1], 0, 0>>
             [] u = "w" -> <<p[1] - (p[1] % 7), 0, 0>>
  IN IF neg THEN Neg(q) ELSE q
-----------------------------------------------------------------------------
\* the calendar
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Month(y, m) == CASE m \in {4, 6, 9, 11} -> 30
                 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
                 [] OTHER -> 31
\* days from 1970-01-01
Leaps(y) == ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
NewYear(y) == 365 * (y - 1970) + Leaps(y) - Leaps(1970)
RECURSIVE Before(_, _)
Before(y, m) == IF m = 1 THEN 0 ELSE Before(y, m - 1) + Month(y, m - 1)
DayOf(y, m, d) == NewYear(y) + Before(y, m) + d - 1
YearOf(n) == CHOOSE y \in (1968 + (n \div 366) - 1)..(1971 + (n \div 365)) :
                NewYear(y) <= n /\ n < NewYear(y + 1)
MonthOf(n) == LET y == YearOf(n) IN
              CHOOSE m \in 1..12 : /\ NewYear(y) + Before(y, m) <= n
                                   /\ n < NewYear(y) + Before(y, m) + Month(y, m)
\* the origin of dates, from 1970-01-01 00:00
Origin == <<10957, 43200, 0>>
Civil(a) == LET t == Add(a, Origin)
                y == YearOf(t[1])
                m == MonthOf(t[1]) IN
            [y |-> y, m |-> m, d |-> t[1] - NewYear(y) - Before(y, m) + 1,
             hh |-> t[2] \div 3600, mi |-> (t[2] % 3600) \div 60, ss |-> t[2] % 60, ns |-> t[3]]
Instant(c) == Sub(<<DayOf(c.y, c.m, c.d), c.hh * 3600 + c.mi * 60 + c.ss, c.ns>>, Origin)
ValidCivil(c) == c.m \in 1..12 /\ c.d \in 1..Month(c.y, c.m)
\* a duration as sign, hours, minutes, seconds, nanoseconds
Clock(a) == LET neg == a[1] < 0
                p == IF neg THEN Neg(a) ELSE a IN
            [neg |-> neg, hh |-> p[1] * 24 + (p[2] \div 3600), mi |-> (p[2] % 3600) \div 60,
             ss |-> p[2] % 60, ns |-> p[3]]
FromClock(c) == LET p == Norm(c.hh \div 24, ((c.hh % 24) * 3600) + c.mi * 60 + c.ss, c.ns)
                IN IF c.neg THEN Neg(p) ELSE p
-----------------------------------------------------------------------------
\* what is held stays where no 64-bit number overflows
Small(a) == a[1] >= 0 - 90000 /\ a[1] <= 90000
Init == dur = Zero /\ dat = Zero /\ out = [e |-> "ok", v |-> Zero]
Ok(v) == out' = [e |-> "ok", v |-> v]
SetDur(v) == dur' = v /\ UNCHANGED dat /\ Ok(v)
SetDat(v) == dat' = v /\ UNCHANGED dur /\ Ok(v)
Same == UNCHANGED <<dur, dat>>
Legal(o) ==
  CASE o.op = "dset" -> Small(o.a)
    [] o.op \in {"dmade", "dplus"} -> Small(Times(o.k, Unit(o.u))) /\ Small(Add(dur, Times(o.k, Unit(o.u))))
    [] o.op = "dadd" -> Small(o.a) /\ Small(Add(dur, o.a))
    [] o.op = "dsub" -> Small(o.a) /\ Small(Sub(dur, o.a))
    [] o.op = "dmul" -> o.k \in -40..40 /\ dur[1] > 0 - 2000 /\ dur[1] < 2000
    [] o.op = "tset" -> Small(o.a)
    [] o.op = "tadd" -> Small(o.a) /\ Small(Add(dat, o.a))
    [] o.op = "tsub" -> Small(o.a) /\ Small(Sub(dat, o.a))
    [] o.op = "taddu" -> Small(Times(o.k, Unit(o.u))) /\ Small(Add(dat, Times(o.k, Unit(o.u))))
    [] o.op = "tparse" -> ValidCivil(o.c) /\ o.c.y \in 1760..2240
    [] o.op = "dparse" -> o.c.hh < 24 /\ ~o.c.neg
    [] OTHER -> TRUE
\* a duration: given a number, a number of some unit, a text, a stream
Dset(o) == SetDur(o.a)
Dmade(o) == SetDur(Times(o.k, Unit(o.u)))
Dadd(o) == SetDur(Add(dur, o.a))
Dsub(o) == SetDur(Sub(dur, o.a))
Dplus(o) == SetDur(Add(dur, Times(o.k, Unit(o.u))))
Dmul(o) == SetDur(Times(o.k, dur))
Dneg(o) == SetDur(Neg(dur))
\* ++ and --: the value before when written after
Dinc(o) == /\ dur' = Add(dur, <<0, 0, o.k>>) /\ UNCHANGED dat
           /\ Ok(IF o.post THEN dur ELSE dur')
Dcmp(o) == Same /\ Ok(Compare(dur, o.a))
Dcmpu(o) == Same /\ Ok(Compare(dur, Times(o.k, Unit(o.u))))
Dto(o) == Same /\ Ok(Trunc(o.u, dur))
Dfmt(o) == Same /\ Ok(Clock(dur))
Dparse(o) == SetDur(FromClock(o.c))
Dback(o) == \* written and read again
            Same /\ Ok(IF Less(dur, Zero) \/ dur[1] >= 1 THEN Zero ELSE dur)
Dbad(o) == SetDur(Zero)
\* a date
Tset(o) == SetDat(o.a)
Tadd(o) == SetDat(Add(dat, o.a))
Tsub(o) == SetDat(Sub(dat, o.a))
Taddu(o) == SetDat(Add(dat, Times(o.k, Unit(o.u))))
Tinc(o) == /\ dat' = Add(dat, <<0, 0, o.k>>) /\ UNCHANGED dur
           /\ Ok(IF o.post THEN dat ELSE dat')
Tcmp(o) == Same /\ Ok(Compare(dat, o.a))
Tfmt(o) == Same /\ Ok(Civil(dat))
\* as a point of the system clock: from 1970
Tpoint(o) == Same /\ Ok(Trunc(o.u, Add(dat, Origin)))
Tfrom(o) == SetDat(Sub(o.a, Origin))
Tparse(o) == SetDat(Instant(o.c))
Tback(o) == Same /\ Ok(dat)
Do(o) == CASE o.op = "dset" -> Dset(o)
           [] o.op = "dmade" -> Dmade(o)
           [] o.op = "dadd" -> Dadd(o)
           [] o.op = "dsub" -> Dsub(o)
           [] o.op = "dplus" -> Dplus(o)
           [] o.op = "dmul" -> Dmul(o)
           [] o.op = "dneg" -> Dneg(o)
           [] o.op = "dinc" -> Dinc(o)
           [] o.op = "dcmp" -> Dcmp(o)
           [] o.op = "dcmpu" -> Dcmpu(o)
           [] o.op \in {"dto", "dtoc"} -> Dto(o)
           [] o.op = "dfmt" -> Dfmt(o)
           [] o.op = "dparse" -> Dparse(o)
           [] o.op = "dback" -> Dback(o)
           [] o.op = "dbad" -> Dbad(o)
           [] o.op = "tset" -> Tset(o)
           [] o.op = "tadd" -> Tadd(o)
           [] o.op = "tsub" -> Tsub(o)
           [] o.op = "taddu" -> Taddu(o)
           [] o.op = "tinc" -> Tinc(o)
           [] o.op = "tcmp" -> Tcmp(o)
           [] o.op = "tfmt" -> Tfmt(o)
           [] o.op = "tpoint" -> Tpoint(o)
           [] o.op = "tfrom" -> Tfrom(o)
           [] o.op = "tparse" -> Tparse(o)
           [] o.op = "tback" -> Tback(o)
=============================================================================
