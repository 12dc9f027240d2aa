----------------------------- MODULE TicksTrace -----------------------------
(* Judges timestamp conversions recorded from the implementation.            *)
EXTENDS Ticks, CaseIO

InUnixNano(v) == Le(UnixBase, v) /\ Lt(Mul(Sub(v, UnixBase), I(100)), P2[64])

Walk(s, steps) == FoldLeft(LAMBDA a, op : Flag(op, a), s, steps)

\* [k: "ticks", x, t (function), mt (method), utc, back, val, nano, leap, mleap, neg, mneg, long, short, steps, after]
TicksWhy(c) ==
    With(Split(Of(c.x)), LAMBDA s :
    With(TimeOf(s.v), LAMBDA t :
    IF c.t # t \/ c.mt # t THEN <<"time of", c.x, "expected", t, "function", c.t, "method", c.mt>>
    ELSE IF ~c.utc THEN <<"time is not in UTC">>
    ELSE IF Of(c.back) # s.v THEN <<"back", c.back>>
    ELSE IF Of(c.val) # s.v THEN <<"timestamp value", c.val>>
    ELSE IF InUnixNano(s.v) /\ Of(c.nano) # Mul(Sub(s.v, UnixBase), I(100)) THEN <<"unix ns", c.nano>>
    ELSE IF InUnixNano(s.v) /\ Of(c.unback) # s.v THEN <<"from unix ns", c.unback>>
    ELSE IF c.leap # IsLeap(s) \/ c.mleap # IsLeap(s) THEN <<"leap second flag">>
    ELSE IF c.neg # IsNegative(s) \/ c.mneg # IsNegative(s) THEN <<"leap second direction">>
    ELSE IF c.long # LongText(t) THEN <<"text", c.long, LongText(t)>>
    ELSE IF c.short # ShortText(t) THEN <<"short text", c.short, ShortText(t)>>
    ELSE IF Of(c.after) # Join(Walk(s, c.steps)) THEN <<"after", c.steps, c.after, "expected", Dec(Join(Walk(s, c.steps)))>>
    ELSE <<>>))
\* [k: "time", t, off, x]
TimeWhy(c) == IF Of(c.x) = TicksOf(c.t, c.off) THEN <<>> ELSE <<"ticks of", c.t, c.off, "are", c.x, "expected", Dec(TicksOf(c.t, c.off))>>
\* [k: "nano", ns, x]
NanoWhy(c) == IF Of(c.x) = Add(UnixBase, Quo(Of(c.ns), I(100))) THEN <<>> ELSE <<"from unix ns", c.ns, c.x>>
\* [k: "order", a, b, before]: a < b as times iff as counts
OrderWhy(c) == IF c.before = Lt(Of(c.a), Of(c.b)) THEN <<>> ELSE <<"order of", c.a, c.b>>
\* [k: "const", x]
Consts == <<Int0, MaxTicks, I(10), I(10000), TicksPerSecond, Mul(I(60), TicksPerSecond), Mul(I(3600), TicksPerSecond), TicksPerDay,
            LeapBit, DirBit, Sub(DirBit, I(1)), UnixBase>>
ConstWhy(c) == IF \A i \in DOMAIN Consts : Of(c.x[i]) = Consts[i] THEN <<>> ELSE <<"constants", [i \in DOMAIN Consts |-> Dec(Consts[i])]>>
\* [k: "now", t0, x, t1]: the present time was read between the two (give or take an adjustment of the clock)
NowWhy(c) == LET slack == Mul(I(60), TicksPerSecond)
             IN IF Le(Sub(TicksOf(c.t0, 0), slack), Of(c.x)) /\ Le(Of(c.x), Add(TicksOf(c.t1, 0), slack)) THEN <<>> ELSE <<"the present is", c.x>>
Why(c) == CASE c.k = "now" -> NowWhy(c) [] c.k = "ticks" -> TicksWhy(c) [] c.k = "time" -> TimeWhy(c) [] c.k = "nano" -> NanoWhy(c) [] c.k = "order" -> OrderWhy(c) [] c.k = "const" -> ConstWhy(c)

TInit == CaseInit
TNext == Cur <= NumCases /\ \E w \in {Why(Cases[Cur])} : Judge(w = <<>>, w)
=============================================================================
