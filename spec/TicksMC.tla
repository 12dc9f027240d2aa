------------------------------ MODULE TicksMC -------------------------------
(* A timestamp that is flagged, cleared, advanced and converted.  Explored   *)
(* from boundary days; the laws of Ticks.tla hold in every state.            *)
EXTENDS Ticks
CONSTANT Depth
VARIABLES st, day, n
vars == <<st, day, n>>
Years == {1, 2, 3, 4, 5, 99, 100, 101, 399, 400, 401, 1600, 1677, 1678, 1700, 1899, 1900, 1904, 1969, 1970, 1971, 1999, 2000, 2001, 2100, 2262, 2263, 2400, 9996, 9999}
Days == UNION {{DayNumber(y, m, 1), DayNumber(y, m, MonthDays(y, m))} : y \in Years, m \in 1 .. 12}
Subs == {I(0), I(1), Sub(TicksPerDay, I(1)), Add(Mul(I(3661), TicksPerSecond), I(1234500))}
Init == /\ day \in Days
        /\ \E s \in Subs : st = Stamp(Add(Mul(I(day), TicksPerDay), s), FALSE, FALSE)
        /\ n = 0
Do(op) == n < Depth /\ st' = Flag(op, st) /\ n' = n + 1 /\ UNCHANGED day
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
Laws ==
    /\ DateOf(day)[1] \in Years /\ DayNumber(DateOf(day)[1], DateOf(day)[2], DateOf(day)[3]) = day
    /\ TicksOf(TimeOf(st.v), 0) = st.v
    /\ Le(st.v, MaxTicks) /\ Lt(MaxTicks, P2[62])
    /\ Split(Join(st)) = st
    /\ (day >= UnixEpochDay) = Le(UnixBase, st.v)
\* Flags never touch the time.
FlagsOnly == [][st'.v = st.v]_vars
=============================================================================
