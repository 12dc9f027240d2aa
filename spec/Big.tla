-------------------------------- MODULE Big ---------------------------------
(* Integers of any size (TLC's own are 32 bits wide).  A magnitude is a      *)
(* sequence of base 10000 digits, least significant first, without leading   *)
(* zeros; an integer is [n |-> negative?, m |-> magnitude], zero being       *)
(* [n |-> FALSE, m |-> <<>>].  Division truncates towards zero, as Go's.     *)
EXTENDS Integers, Sequences, SequencesExt, TLC

LOCAL B == 10000
LOCAL Max2(a, b) == IF a > b THEN a ELSE b
\* Evaluates e once (TLC evaluates a LET anew at every use).
With(e, Op(_)) == CHOOSE y \in {Op(x) : x \in {e}} : TRUE
LOCAL At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
LOCAL Norm(m) == FoldLeft(LAMBDA acc, k : IF acc # <<>> /\ acc[Len(acc)] = 0 THEN SubSeq(acc, 1, Len(acc) - 1) ELSE acc,
                          m, [k \in 1 .. Len(m) |-> k])
LOCAL Upto(n) == [i \in 1 .. n |-> i]
LOCAL Downfrom(n) == [i \in 1 .. n |-> n + 1 - i]

-----------------------------------------------------------------------------
(* Magnitudes.                                                               *)
MCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
              ELSE FoldLeft(LAMBDA r, i : IF r # 0 \/ a[i] = b[i] THEN r ELSE IF a[i] < b[i] THEN -1 ELSE 1, 0, Downfrom(Len(a)))
LOCAL Carry(s) == IF s.c = 0 THEN s.r ELSE Append(s.r, s.c)
MAdd(a, b) == With(FoldLeft(LAMBDA s, i : LET x == At(a, i) + At(b, i) + s.c
                                          IN [r |-> Append(s.r, x % B), c |-> x \div B],
                            [r |-> <<>>, c |-> 0], Upto(Max2(Len(a), Len(b)))), LAMBDA s : Carry(s))
\* a - b for a >= b
MSub(a, b) == Norm(FoldLeft(LAMBDA s, i : LET x == a[i] - At(b, i) - s.c
                                          IN [r |-> Append(s.r, IF x < 0 THEN x + B ELSE x), c |-> IF x < 0 THEN 1 ELSE 0],
                            [r |-> <<>>, c |-> 0], Upto(Len(a))).r)
\* a times the small number k < 200000
MMulSmall(a, k) == IF k = 0 THEN <<>>
                   ELSE With(FoldLeft(LAMBDA s, i : LET x == a[i] * k + s.c
                                                    IN [r |-> Append(s.r, x % B), c |-> x \div B],
                                      [r |-> <<>>, c |-> 0], Upto(Len(a))),
                             LAMBDA s : IF s.c = 0 THEN s.r ELSE IF s.c < B THEN Append(s.r, s.c)
                                        ELSE s.r \o <<s.c % B, s.c \div B>>)
LOCAL Shift(m, n) == IF m = <<>> THEN m ELSE [i \in 1 .. n |-> 0] \o m
MMul(a, b) == FoldLeft(LAMBDA r, i : IF a[i] = 0 THEN r ELSE MAdd(r, Shift(MMulSmall(b, a[i]), i - 1)), <<>>, Upto(Len(a)))
\* [q, r] with a = q k + r for a small number 0 < k < 200000
MDivSmall(a, k) == With(FoldLeft(LAMBDA s, i : LET x == s.r * B + a[i]
                                               IN [q |-> <<x \div k>> \o s.q, r |-> x % k],
                                 [q |-> <<>>, r |-> 0], Downfrom(Len(a))),
                        LAMBDA s : [q |-> Norm(s.q), r |-> s.r])
LOCAL Push(r, d) == IF r = <<>> THEN (IF d = 0 THEN <<>> ELSE <<d>>) ELSE <<d>> \o r
\* The largest d with d b <= r, by halving.
LOCAL QDigit(r, b) ==
    IF MCmp(r, b) < 0 THEN 0
    ELSE FoldLeft(LAMBDA d, k : IF d + k < B /\ MCmp(MMulSmall(b, d + k), r) <= 0 THEN d + k ELSE d, 0,
                  <<8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1>>)
MDivMod(a, b) ==
    IF Len(b) = 1 THEN With(MDivSmall(a, b[1]), LAMBDA s : [q |-> s.q, r |-> IF s.r = 0 THEN <<>> ELSE <<s.r>>])
    ELSE With(FoldLeft(LAMBDA s, i : With(Push(s.r, a[i]), LAMBDA r :
                                     With(QDigit(r, b), LAMBDA d :
                                          [q |-> <<d>> \o s.q, r |-> IF d = 0 THEN r ELSE MSub(r, MMulSmall(b, d))])),
                       [q |-> <<>>, r |-> <<>>], Downfrom(Len(a))),
              LAMBDA s : [q |-> Norm(s.q), r |-> s.r])

-----------------------------------------------------------------------------
(* Integers.                                                                 *)
Int0 == [n |-> FALSE, m |-> <<>>]
Mk(n, m) == [n |-> n /\ m # <<>>, m |-> m]
LOCAL MagOf(k) == Norm(<<k % B, (k \div B) % B, k \div (B * B)>>)
I(k) == IF k < 0 THEN Mk(TRUE, MagOf(-k)) ELSE Mk(FALSE, MagOf(k))
Neg(a) == Mk(~a.n, a.m)
Abs(a) == Mk(FALSE, a.m)
IsZero(a) == a.m = <<>>
Cmp(a, b) == IF a.n # b.n THEN (IF a.n THEN -1 ELSE 1) ELSE IF a.n THEN MCmp(b.m, a.m) ELSE MCmp(a.m, b.m)
Lt(a, b) == Cmp(a, b) < 0
Le(a, b) == Cmp(a, b) <= 0
Add(a, b) == IF a.n = b.n THEN Mk(a.n, MAdd(a.m, b.m))
             ELSE IF MCmp(a.m, b.m) >= 0 THEN Mk(a.n, MSub(a.m, b.m)) ELSE Mk(b.n, MSub(b.m, a.m))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == Mk(a.n # b.n, MMul(a.m, b.m))
\* quotient and remainder, truncating (b # 0)
QuoRem(a, b) == With(MDivMod(a.m, b.m), LAMBDA s : [q |-> Mk(a.n # b.n, s.q), r |-> Mk(a.n, s.r)])
Quo(a, b) == QuoRem(a, b).q
Rem(a, b) == QuoRem(a, b).r
\* floor division and non-negative remainder for b > 0
FloorDiv(a, b) == With(QuoRem(a, b), LAMBDA s : IF s.r.n THEN Sub(s.q, I(1)) ELSE s.q)
Mod(a, b) == With(Rem(a, b), LAMBDA r : IF r.n THEN Add(r, b) ELSE r)
Odd(a) == a.m # <<>> /\ a.m[1] % 2 = 1

RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN I(1) ELSE IF k % 2 = 1 THEN Mul(a, Pow(a, k - 1)) ELSE With(Pow(a, k \div 2), LAMBDA h : Mul(h, h))
P2 == [k \in 0 .. 128 |-> Pow(I(2), k)]
P10 == [k \in 0 .. 40 |-> Pow(I(10), k)]
\* Two's complement wrap to w bits.
Wrap(a, w) == IF MCmp(a.m, P2[w - 1].m) < 0 THEN a
              ELSE With(Mod(a, P2[w]), LAMBDA r : IF Lt(r, P2[w - 1]) THEN r ELSE Sub(r, P2[w]))
UWrap(a, w) == Mod(a, P2[w])
Fits(a, w) == Le(Neg(P2[w - 1]), a) /\ Lt(a, P2[w - 1])
\* As a TLC integer (for values that fit).
ToInt(a) == With(FoldRight(LAMBDA d, r : r * B + d, a.m, 0), LAMBDA k : IF a.n THEN -k ELSE k)

\* The decimal digits of a magnitude as character codes, and of an integer.
LOCAL Four(d) == <<48 + d \div 1000, 48 + ((d \div 100) % 10), 48 + ((d \div 10) % 10), 48 + (d % 10)>>
LOCAL Strip(t) == FoldLeft(LAMBDA r, c : IF r = <<>> /\ c = 48 THEN r ELSE Append(r, c), <<>>, t)
MDec(m) == IF m = <<>> THEN <<48>> ELSE Strip(FoldLeft(LAMBDA t, i : t \o Four(m[i]), <<>>, Downfrom(Len(m))))
Dec(a) == (IF a.n THEN <<45>> ELSE <<>>) \o MDec(a.m)
\* The integer written as character codes: optional sign, digits.
LOCAL MOf(t) == Norm([k \in 1 .. (Len(t) + 3) \div 4 |->
                   FoldLeft(LAMBDA v, j : IF j >= 1 THEN v * 10 + (t[j] - 48) ELSE v, 0,
                            [q \in 1 .. 4 |-> Len(t) - 4 * k + q])])
Of(t) == IF t # <<>> /\ t[1] = 45 THEN Mk(TRUE, MOf(Tail(t)))
         ELSE IF t # <<>> /\ t[1] = 43 THEN Mk(FALSE, MOf(Tail(t))) ELSE Mk(FALSE, MOf(t))
=============================================================================
