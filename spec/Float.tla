------------------------------- MODULE Float --------------------------------
(* Double precision numbers, exactly: [k |-> "num", n, m, e] is m * 2^e with *)
(* sign n (m a magnitude of Big.tla below 2^53); [k |-> "inf", n] and        *)
(* [k |-> "nan"] are the others.  Results of operations are the exact result *)
(* rounded to nearest, ties to even.                                         *)
EXTENDS Big

LOCAL Pow2Seq == FoldLeft(LAMBDA q, i : Append(q, MMulSmall(q[Len(q)], 2)), <<<<1>>>>, [i \in 1 .. 1300 |-> i])
\* The magnitude 2^k.
Pow2(k) == Pow2Seq[k + 1]

NaN == [k |-> "nan", n |-> FALSE, m |-> <<>>, e |-> 0]
Inf(n) == [k |-> "inf", n |-> n, m |-> <<>>, e |-> 0]
Zero(n) == [k |-> "num", n |-> n, m |-> <<>>, e |-> 0]
IsNum(d) == d.k = "num"

\* Number of bits of a magnitude (below 2^1300).
LOCAL Bits(m) == IF m = <<>> THEN 0
                 ELSE FoldLeft(LAMBDA b, s : IF b + s <= 1300 /\ MCmp(Pow2(b + s - 1), m) <= 0 THEN b + s ELSE b, 0,
                               <<1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1>>)
\* Canonical form: 2^52 <= m < 2^53, or e = -1074, or zero.
LOCAL MShl(m, k) == MMul(m, Pow2(k))
\* m / 2^k rounded to nearest even; sticky says whether there is more below m.
LOCAL MShrRound(m, k, sticky) ==
    With(MDivMod(m, Pow2(k)), LAMBDA s :
    LET c == MCmp(MMulSmall(s.r, 2), Pow2(k))
        up == c > 0 \/ (c = 0 /\ (sticky \/ (s.q # <<>> /\ s.q[1] % 2 = 1)))
    IN IF up THEN MAdd(s.q, <<1>>) ELSE s.q)
LOCAL Canon2(n, m, e) ==
    LET b == Bits(m) IN
    IF b = 54 THEN [k |-> "num", n |-> n, m |-> Pow2(52), e |-> e + 1] ELSE [k |-> "num", n |-> n, m |-> m, e |-> e]
LOCAL Finish(d) == IF d.m = <<>> THEN Zero(d.n) ELSE IF d.e > 971 THEN Inf(d.n) ELSE d
\* The double nearest to (-1)^n m 2^e (m has at least 55 bits when sticky).
RoundTo(n, m, e, sticky) ==
    IF m = <<>> THEN Zero(n)
    ELSE With(Bits(m), LAMBDA b :
         LET shift == IF e + (b - 53) < -1074 THEN -1074 - e ELSE b - 53 IN
         IF shift <= 0 THEN Finish([k |-> "num", n |-> n, m |-> MShl(m, -shift), e |-> e + shift])
         ELSE IF shift > b + 1 THEN Zero(n)
         ELSE Finish(Canon2(n, MShrRound(m, shift, sticky), e + shift)))
\* The single precision number nearest to (-1)^n m 2^e.
RoundTo32(n, m, e, sticky) ==
    IF m = <<>> THEN Zero(n)
    ELSE With(Bits(m), LAMBDA b :
         LET shift == IF e + (b - 24) < -149 THEN -149 - e ELSE b - 24
             Up(d) == IF d.m = <<>> THEN Zero(n)
                      ELSE IF Bits(d.m) + d.e > 128 THEN Inf(n)
                      ELSE RoundTo(n, d.m, d.e, FALSE)           \* as a double
         IN IF shift <= 0 THEN Up([m |-> m, e |-> e])
            ELSE IF shift > b + 1 THEN Zero(n)
            ELSE Up([m |-> MShrRound(m, shift, sticky), e |-> e + shift]))
To32(d) == IF d.k # "num" THEN d ELSE RoundTo32(d.n, d.m, d.e, FALSE)
Canon(d) == IF d.k # "num" THEN d ELSE RoundTo(d.n, d.m, d.e, FALSE)
\* The double nearest to an integer.
OfInt(a) == RoundTo(a.n, a.m, 0, FALSE)
\* The double nearest to num / den, 10^k scaled decimals in particular (den # 0).
OfRatio(n, num, den) ==
    IF num = <<>> THEN Zero(n)
    ELSE With(IF Bits(num) - Bits(den) < 64 THEN 64 - (Bits(num) - Bits(den)) ELSE 0, LAMBDA s :
         With(MDivMod(MShl(num, s), den), LAMBDA q : RoundTo(n, q.q, -s, q.r # <<>>)))

OfRatio32(n, num, den) ==
    IF num = <<>> THEN Zero(n)
    ELSE With(IF Bits(num) - Bits(den) < 64 THEN 64 - (Bits(num) - Bits(den)) ELSE 0, LAMBDA s :
         With(MDivMod(MShl(num, s), den), LAMBDA q : RoundTo32(n, q.q, -s, q.r # <<>>)))

FNeg(d) == IF d.k = "nan" THEN d ELSE [d EXCEPT !.n = ~@]
FAbs(d) == [d EXCEPT !.n = FALSE]
IsZeroF(d) == d.k = "num" /\ d.m = <<>>

\* Exact comparison of finite numbers: both brought to the smaller exponent.
LOCAL Lead(d) == Bits(d.m) + d.e
LOCAL AbsCmp(a, b) ==
    IF a.m = <<>> \/ b.m = <<>> THEN MCmp(a.m, b.m)
    ELSE IF Lead(a) # Lead(b) THEN (IF Lead(a) < Lead(b) THEN -1 ELSE 1)
    ELSE IF a.e >= b.e THEN MCmp(MShl(a.m, a.e - b.e), b.m) ELSE MCmp(a.m, MShl(b.m, b.e - a.e))
LOCAL Sgn(d) == IF d.m = <<>> /\ d.k = "num" THEN 0 ELSE IF d.n THEN -1 ELSE 1
\* -1, 0, 1, or 2 when one is not a number.
FCmp(a, b) ==
    IF a.k = "nan" \/ b.k = "nan" THEN 2
    ELSE IF Sgn(a) # Sgn(b) THEN (IF Sgn(a) < Sgn(b) THEN -1 ELSE 1)
    ELSE IF Sgn(a) = 0 THEN 0
    ELSE LET c == IF a.k = "inf" THEN (IF b.k = "inf" THEN 0 ELSE 1) ELSE IF b.k = "inf" THEN -1 ELSE AbsCmp(a, b)
         IN Sgn(a) * c

FAdd(a, b) ==
    IF a.k = "nan" \/ b.k = "nan" THEN NaN
    ELSE IF a.k = "inf" THEN (IF b.k = "inf" /\ a.n # b.n THEN NaN ELSE a)
    ELSE IF b.k = "inf" THEN b
    ELSE IF a.m = <<>> THEN (IF b.m = <<>> THEN Zero(a.n /\ b.n) ELSE b)
    ELSE IF b.m = <<>> THEN a
    ELSE LET x == IF Lead(a) >= Lead(b) THEN a ELSE b
             y == IF Lead(a) >= Lead(b) THEN b ELSE a
         IN IF Lead(x) - Lead(y) > 120
            THEN \* y only matters for rounding, and x is exact: below half a unit of x
                 x
            ELSE LET lo == IF x.e < y.e THEN x.e ELSE y.e IN
                 With(Add(Mk(x.n, MShl(x.m, x.e - lo)), Mk(y.n, MShl(y.m, y.e - lo))), LAMBDA s : RoundTo(s.n, s.m, lo, FALSE))
FSub(a, b) == FAdd(a, FNeg(b))
FMul(a, b) ==
    IF a.k = "nan" \/ b.k = "nan" THEN NaN
    ELSE IF a.k = "inf" \/ b.k = "inf" THEN (IF IsZeroF(a) \/ IsZeroF(b) THEN NaN ELSE Inf(a.n # b.n))
    ELSE RoundTo(a.n # b.n, MMul(a.m, b.m), a.e + b.e, FALSE)
FDiv(a, b) ==
    IF a.k = "nan" \/ b.k = "nan" THEN NaN
    ELSE IF a.k = "inf" THEN (IF b.k = "inf" THEN NaN ELSE Inf(a.n # b.n))
    ELSE IF b.k = "inf" THEN Zero(a.n # b.n)
    ELSE IF b.m = <<>> THEN (IF a.m = <<>> THEN NaN ELSE Inf(a.n # b.n))
    ELSE IF a.m = <<>> THEN Zero(a.n # b.n)
    ELSE With(MDivMod(MShl(a.m, 120), b.m), LAMBDA q : RoundTo(a.n # b.n, q.q, a.e - b.e - 120, q.r # <<>>))

\* Rounding to an integer (Big): "trunc", "floor", "ceil", "round" (half away from zero).
LOCAL IntParts(d) == IF d.e >= 0 THEN [q |-> MShl(d.m, d.e), r |-> <<>>] ELSE IF d.e < -1200 THEN [q |-> <<>>, r |-> d.m] ELSE MDivMod(d.m, Pow2(-d.e))
ToInteger(d, how) ==
    With(IntParts(d), LAMBDA s :
    LET half == d.e < 0 /\ d.e >= -1200 /\ MCmp(MMulSmall(s.r, 2), Pow2(-d.e)) >= 0
        more == CASE how = "trunc" -> FALSE
                  [] how = "floor" -> d.n /\ s.r # <<>>
                  [] how = "ceil" -> ~d.n /\ s.r # <<>>
                  [] how = "round" -> half
    IN Mk(d.n, IF more THEN MAdd(s.q, <<1>>) ELSE s.q))
\* The same as a double (keeps the sign of zero).
FRound(d, how) == IF d.k # "num" \/ d.e >= 0 THEN d
                  ELSE With(ToInteger(d, how), LAMBDA i : IF IsZero(i) THEN Zero(d.n) ELSE OfInt(i))
\* Remainder with the sign of a.
FMod(a, b) ==
    IF a.k # "num" \/ b.k = "nan" \/ IsZeroF(b) THEN NaN
    ELSE IF b.k = "inf" \/ a.m = <<>> THEN a
    ELSE IF Lead(a) - Lead(b) > 900 \/ a.e - b.e > 900 \/ b.e - a.e > 900 THEN a   \* outside what is generated
    ELSE LET lo == IF a.e < b.e THEN a.e ELSE b.e IN
         With(MDivMod(MShl(a.m, a.e - lo), MShl(b.m, b.e - lo)).r, LAMBDA r : RoundTo(a.n, r, lo, FALSE))
\* Is r the square root of a, rounded to nearest?  (a finite, not negative)
IsSqrt(r, a) ==
    IF IsZeroF(a) THEN r = a
    ELSE /\ IsNum(r) /\ ~r.n /\ r.m # <<>>
         \* (2m-1)^2 2^(2e-2) <= a <= (2m+1)^2 2^(2e-2)
         /\ LET lo == MSub(MMulSmall(r.m, 2), <<1>>)
                hi == MAdd(MMulSmall(r.m, 2), <<1>>)
                x == [k |-> "num", n |-> FALSE, m |-> MMul(lo, lo), e |-> 2 * r.e - 2]
                y == [k |-> "num", n |-> FALSE, m |-> MMul(hi, hi), e |-> 2 * r.e - 2]
            IN FCmp(x, a) <= 0 /\ FCmp(a, y) <= 0

-----------------------------------------------------------------------------
(* Decimal texts of doubles.                                                 *)
LOCAL PadLeft(t, n) == IF Len(t) >= n THEN t ELSE [i \in 1 .. n - Len(t) |-> 48] \o t
LOCAL Sign(d) == IF d.n THEN <<45>> ELSE <<>>
LOCAL WithPoint(t, p) == With(PadLeft(t, p + 1), LAMBDA u :
                              [int |-> SubSeq(u, 1, Len(u) - p), frac |-> SubSeq(u, Len(u) - p + 1, Len(u))])
Ten(p) == Pow(I(10), p).m
\* The parts [sign, int, frac] of d with exactly p fraction digits, rounded to nearest even.
FixedParts(d, p) ==
    LET num == MMul(d.m, Ten(p)) IN
    With(IF d.e >= 0 THEN MShl(num, d.e) ELSE MShrRound(num, -d.e, FALSE), LAMBDA v :
    With(WithPoint(MDec(v), p), LAMBDA w : [sign |-> Sign(d), int |-> w.int, frac |-> w.frac]))

\* Exact rationals num / 2^s as pairs for the comparison below.
LOCAL Scale(d, k) == \* d as an integer multiple of 2^-k
    MShl(d.m, d.e + k)
\* Is the decimal c 10^q (c a magnitude, q any) within the values that round to d?
LOCAL InRange(d, c, q) ==
    LET ex == IF d.m = Pow2(52) /\ d.e > -1074 THEN 2 ELSE 1   \* below a power of two the gap is half as wide
        \* in units of 2^(e-2): d = 4m, up to 4m + 2, down to 4m - 2 (or 4m - 1)
        hi == MAdd(MMulSmall(d.m, 4), <<2>>)
        lo == MSub(MMulSmall(d.m, 4), IF ex = 2 THEN <<1>> ELSE <<2>>)
        u == d.e - 2
        \* compare c 10^q with h 2^u
        C(h) == LET a == IF q >= 0 THEN MMul(c, Ten(q)) ELSE c
                    b == IF q >= 0 THEN h ELSE MMul(h, Ten(-q))
                IN IF u >= 0 THEN MCmp(a, MShl(b, u)) ELSE MCmp(MShl(a, -u), b)
        even == d.m[1] % 2 = 0
    IN IF even THEN C(lo) >= 0 /\ C(hi) <= 0 ELSE C(lo) > 0 /\ C(hi) < 0
LOCAL StripZeros(t) == IF \A i \in DOMAIN t : t[i] = 48 THEN <<>>
                       ELSE SubSeq(t, 1, CHOOSE i \in DOMAIN t : t[i] # 48 /\ \A j \in i + 1 .. Len(t) : t[j] = 48)
\* Are int and frac the digits of the shortest decimal that reads back as d?
IsShortest(d, int, frac) ==
    IF d.m = <<>> THEN int = <<48>> /\ frac = <<>>
    ELSE /\ frac = <<>> \/ frac[Len(frac)] # 48
         /\ int = <<48>> \/ int[1] # 48
         /\ LET all == int \o frac
                sig == StripZeros(all)
                q == (Len(all) - Len(sig)) - Len(frac)
                c == Of(sig).m
                shorter == MDivSmall(c, 10).q
            IN /\ InRange(d, c, q)
               /\ ~InRange(d, shorter, q + 1)
               /\ ~InRange(d, MAdd(shorter, <<1>>), q + 1)
=============================================================================
