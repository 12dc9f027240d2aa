------------------------------- MODULE Ticks --------------------------------
(* Timestamps: a count of 100 ns intervals since 0001-01-01 UTC in the       *)
(* proleptic Gregorian calendar, with two flags for leap seconds, and what   *)
(* converting, flagging and printing them must give.                         *)
EXTENDS Big

TicksPerSecond == I(10000000)
TicksPerDay == Mul(I(86400), TicksPerSecond)
UnixEpochDay == 719162
MaxDay == 3652058                       \* 9999-12-31
LeapBit == P2[63]
DirBit == P2[62]

-----------------------------------------------------------------------------
(* Calendar.                                                                 *)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
DaysBeforeYear(y) == (y - 1) * 365 + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
RECURSIVE DaysBeforeMonth(_, _)
DaysBeforeMonth(y, m) == IF m = 1 THEN 0 ELSE DaysBeforeMonth(y, m - 1) + MonthDays(y, m - 1)
\* Days since 0001-01-01.
DayNumber(y, m, d) == DaysBeforeYear(y) + DaysBeforeMonth(y, m) + d - 1
\* The date of a day number.
DateOf(n) ==
    LET y0 == (n * 2) \div 731 + 1       \* at most a few years too small or large
        y == CHOOSE k \in (IF y0 > 16 THEN y0 - 16 ELSE 1) .. y0 + 16 : DaysBeforeYear(k) <= n /\ n < DaysBeforeYear(k + 1)
    IN With(n - DaysBeforeYear(y), LAMBDA r :
            LET m == CHOOSE k \in 1 .. 12 : DaysBeforeMonth(y, k) <= r /\ r < DaysBeforeMonth(y, k) + MonthDays(y, k)
            IN <<y, m, r - DaysBeforeMonth(y, m) + 1>>)

-----------------------------------------------------------------------------
(* The time of a tick count: <<year, month, day, hour, minute, second, ns>>. *)
TimeOf(v) ==
    With(QuoRem(v, TicksPerDay), LAMBDA qd :
    With(QuoRem(qd.r, TicksPerSecond), LAMBDA qs :
    LET s == ToInt(qs.q) IN
    DateOf(ToInt(qd.q)) \o <<s \div 3600, (s \div 60) % 60, s % 60, 100 * ToInt(qs.r)>>))
\* The tick count of a time read in a zone that is off seconds ahead of UTC; what is smaller than a tick is dropped.
TicksOf(t, off) ==
    Add(Mul(Add(Mul(I(DayNumber(t[1], t[2], t[3])), I(86400)), I(3600 * t[4] + 60 * t[5] + t[6] - off)), TicksPerSecond),
        I(t[7] \div 100))
UnixBase == Mul(I(UnixEpochDay), TicksPerDay)
MaxTicks == Sub(Mul(I(MaxDay + 1), TicksPerDay), I(1))

-----------------------------------------------------------------------------
(* A timestamp with its flags.                                               *)
Stamp(v, leap, dir) == [v |-> v, leap |-> leap, dir |-> dir]
Split(x) == LET r == Mod(x, P2[62])
                h == ToInt(Quo(x, P2[62]))
            IN Stamp(r, h >= 2, h % 2 = 1)
Join(s) == Add(s.v, Add(IF s.leap THEN LeapBit ELSE Int0, IF s.dir THEN DirBit ELSE Int0))
IsLeap(s) == s.leap
IsNegative(s) == s.leap /\ s.dir
Flag(op, s) ==
    CASE op \in {"SetLeapSecond", "ApplyLeapSecond", "MSetLeapSecond"} -> [s EXCEPT !.leap = TRUE]
      [] op \in {"SetNegativeLeapSecond", "ApplyNegativeLeapSecond"} -> [s EXCEPT !.leap = TRUE, !.dir = TRUE]
      [] op = "Negative" -> [s EXCEPT !.dir = TRUE]
      [] op = "Positive" -> [s EXCEPT !.dir = FALSE]
      [] OTHER -> s
Ops == {"SetLeapSecond", "ApplyLeapSecond", "MSetLeapSecond", "SetNegativeLeapSecond", "ApplyNegativeLeapSecond", "Negative", "Positive"}

-----------------------------------------------------------------------------
(* Printed form.                                                             *)
LOCAL D2(k) == <<48 + k \div 10, 48 + (k % 10)>>
LOCAL D4(k) == D2(k \div 100) \o D2(k % 100)
LOCAL Trail(q) == IF \A i \in DOMAIN q : q[i] = 48 THEN <<>>
                  ELSE <<46>> \o SubSeq(q, 1, CHOOSE i \in DOMAIN q : q[i] # 48 /\ \A j \in i + 1 .. Len(q) : q[j] = 48)
LOCAL D9(k) == [i \in 1 .. 9 |-> 48 + ((k \div (CASE i = 9 -> 1 [] i = 8 -> 10 [] i = 7 -> 100 [] i = 6 -> 1000 [] i = 5 -> 10000
                                    [] i = 4 -> 100000 [] i = 3 -> 1000000 [] i = 2 -> 10000000 [] i = 1 -> 100000000)) % 10)]
Clock(t) == D2(t[4]) \o <<58>> \o D2(t[5]) \o <<58>> \o D2(t[6])
LongText(t) == D4(t[1]) \o <<45>> \o D2(t[2]) \o <<45>> \o D2(t[3]) \o <<32>> \o Clock(t) \o Trail(D9(t[7]))
ShortText(t) == Clock(t) \o Trail(SubSeq(D9(t[7]), 1, 3))
=============================================================================
