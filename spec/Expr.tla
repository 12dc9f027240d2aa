-------------------------------- MODULE Expr --------------------------------
(* Filter expressions: what the value of an expression is.                   *)
(* A value is [t |-> type, n |-> null?, v |-> as in Value.tla] with t one of *)
(* Boolean, Int32, Int64, Decimal, Double, String, Guid, DateTime; besides   *)
(*   error  evaluation is refused,                                           *)
(*   any    a value this specification leaves open,                          *)
(*   sqrt, near, now   results that are judged, not computed.                *)
EXTENDS Value, FiniteSets
LOCAL INSTANCE Bitwise

X(t, v) == [t |-> t, n |-> FALSE, v |-> v]
NullX(t) == [t |-> t, n |-> TRUE, v |-> FALSE]
Err == X("error", FALSE)
AnyX == X("any", FALSE)
Bool(b) == X("Boolean", b)
I32(i) == X("Int32", i)
Str(s) == X("String", s)
Firm(a) == a.t \notin {"error", "any", "sqrt", "near", "now"}
\* The verdict on operands that are not firm.
Soft(a) == IF a.t = "error" THEN Err ELSE AnyX
Both(a, b) == IF a.t = "error" \/ b.t = "error" THEN Err ELSE AnyX

Rank == [Boolean |-> 1, Int32 |-> 2, Int64 |-> 3, Decimal |-> 4, Double |-> 5]
IsNumericT(t) == t \in DOMAIN Rank
IsIntegerT(t) == IsNumericT(t) /\ Rank[t] <= 3
Width(t) == IF t = "Int32" THEN 32 ELSE 64

-----------------------------------------------------------------------------
(* Texts.                                                                    *)
\* ASCII, and the letters of Latin-1 that have both cases.
LOCAL Clean2(b) == b >= 128 /\ b <= 190 /\ b \notin {151, 159, 183}
Clean(s) == \A i \in DOMAIN s :
    \/ s[i] < 128
    \/ s[i] = 195 /\ i < Len(s) /\ Clean2(s[i + 1])
    \/ Clean2(s[i]) /\ i > 1 /\ s[i - 1] = 195
Cont(c) == c >= 128 /\ c < 192
UpperU(s) == [i \in DOMAIN s |-> IF s[i] < 128 THEN UpperCode(s[i]) ELSE IF s[i] >= 160 /\ s[i] <= 190 THEN s[i] - 32 ELSE s[i]]
LowerU(s) == [i \in DOMAIN s |-> IF s[i] < 128 THEN LowerCode(s[i]) ELSE IF s[i] >= 128 /\ s[i] <= 158 THEN s[i] + 32 ELSE s[i]]
Fold(s, ic) == IF ic THEN UpperU(s) ELSE s
\* Byte order.
LOCAL Min2(a, b) == IF a < b THEN a ELSE b
TextCmp(a, b) ==
    LET d == {i \in 1 .. Min2(Len(a), Len(b)) : a[i] # b[i]} IN
    IF d = {} THEN (IF Len(a) = Len(b) THEN 0 ELSE IF Len(a) < Len(b) THEN -1 ELSE 1)
    ELSE LET i == CHOOSE k \in d : \A j \in d : k <= j IN IF a[i] < b[i] THEN -1 ELSE 1
HasDigit(s) == \E i \in DOMAIN s : IsDigit(s[i])

\* "dec": sign, digits with at most one point, exponent; "special": infinities; "none": no number; "open": anything else.
NumShape(s) ==
    LET body == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
        u == Lower(body)
        k == Find(u, <<101>>, 1)
        man == IF k = 0 THEN u ELSE SubSeq(u, 1, k - 1)
        ex0 == IF k = 0 THEN <<>> ELSE SubSeq(u, k + 1, Len(u))
        ex == IF ex0 # <<>> /\ ex0[1] \in {43, 45} THEN Tail(ex0) ELSE ex0
        pts == Cardinality({i \in DOMAIN man : man[i] = 46})
    IN IF /\ HasDigit(man) /\ pts <= 1 /\ \A i \in DOMAIN man : IsDigit(man[i]) \/ man[i] = 46
          /\ (k = 0 \/ (Digits(ex) /\ Len(ex) <= 2)) /\ Len(man) <= 40
       THEN "dec"
       ELSE IF u \in {T("inf"), T("infinity"), T("nan")} THEN "special"
       ELSE IF ~HasDigit(s) THEN "none" ELSE "open"
\* The number a text of shape "dec" means: [n, c, x].
NumOf(s) == Number(s)
DecOf(s) == With(NumOf(s), LAMBDA q : DecNorm(Mk(q.n, q.c), q.x))
DblOfText(s) ==
    LET u == Lower(IF s[1] \in {43, 45} THEN Tail(s) ELSE s) IN
    IF u \in {T("inf"), T("infinity")} THEN Inf(s[1] = 45)
    ELSE With(NumOf(s), LAMBDA q : IF q.c = <<>> THEN Zero(q.n)
                                   ELSE IF q.x >= 0 THEN OfRatio(q.n, MMul(q.c, Ten(q.x)), <<1>>) ELSE OfRatio(q.n, q.c, Ten(-q.x)))

-----------------------------------------------------------------------------
(* Dates and times.                                                          *)
LOCAL Num(t, i, j) == ToInt(Of(SubSeq(t, i, j)))
LOCAL DigitsAt(t, s) == \A i \in s : IsDigit(t[i])
LOCAL At(t, i, c) == t[i] = c
LOCAL DateP(t) == Len(t) >= 10 /\ DigitsAt(t, {1, 2, 3, 4, 6, 7, 9, 10}) /\ At(t, 5, 45) /\ At(t, 8, 45)
LOCAL ClockP(t) == Len(t) >= 19 /\ t[11] \in {32, 84} /\ DigitsAt(t, {12, 13, 15, 16, 18, 19}) /\ At(t, 14, 58) /\ At(t, 17, 58)
LOCAL UsP(t) == Len(t) = 10 /\ DigitsAt(t, {1, 2, 4, 5, 7, 8, 9, 10}) /\ At(t, 3, 47) /\ At(t, 6, 47)
LOCAL Checked(p) == IF /\ p[1] >= 1 /\ p[2] \in 1 .. 12 /\ p[4] <= 23 /\ p[5] <= 59 /\ p[6] <= 59
                       /\ p[3] >= 1
                       /\ p[3] <= MonthDays(p[1], p[2])
                    THEN X("DateTime", Instant(p, 0)) ELSE X("bad", FALSE)
\* A text as a date and time: a DateTime, "bad", or "open" for forms outside the common ones.
DateShape(t) ==
    IF ~HasDigit(t) THEN X(IF \A i \in DOMAIN t : Lower(t)[i] \in (97 .. 122) \cup {32} THEN "bad" ELSE "open", FALSE)
    ELSE IF UsP(t) THEN Checked(<<Num(t, 7, 10), Num(t, 1, 2), Num(t, 4, 5), 0, 0, 0, 0>>)
    ELSE IF ~DateP(t) THEN X("open", FALSE)
    ELSE IF Len(t) = 10 THEN Checked(<<Num(t, 1, 4), Num(t, 6, 7), Num(t, 9, 10), 0, 0, 0, 0>>)
    ELSE IF ~ClockP(t) THEN X("open", FALSE)
    ELSE LET z == t[Len(t)] = 90
             rest == SubSeq(t, 20, IF z THEN Len(t) - 1 ELSE Len(t))
             f == IF rest = <<>> THEN <<>> ELSE Tail(rest)
         IN IF (t[11] = 84) # z \/ (rest # <<>> /\ (rest[1] # 46 \/ ~Digits(f) \/ Len(f) > 9)) THEN X("open", FALSE)
            ELSE Checked(<<Num(t, 1, 4), Num(t, 6, 7), Num(t, 9, 10), Num(t, 12, 13), Num(t, 15, 16), Num(t, 18, 19),
                           ToInt(Of(f \o [i \in 1 .. 9 - Len(f) |-> 48]))>>)
ZeroTime == [s |-> Int0, ns |-> 0]
Day == I(86400)
LastSecond == Mul(I(MaxDay + 1), Day)
\* <<year, month, day, hour, minute, second, ns>>
Fields(d) == With(QuoRem(d.s, Day), LAMBDA q : LET s == ToInt(q.r) IN
                  DateOf(ToInt(q.q)) \o <<s \div 3600, (s \div 60) % 60, s % 60, d.ns>>)
InYears(d) == ~d.s.n /\ Lt(d.s, LastSecond)
Unix(d) == Sub(d.s, Mul(I(UnixEpochDay), Day))
LOCAL D2(k) == <<48 + ((k \div 10) % 10), 48 + (k % 10)>>
\* 2006-01-02T15:04:05.99-07:00
StampText(d) ==
    With(Fields(d), LAMBDA p :
    LET c == p[7] \div 10000000
        frac == IF c = 0 THEN <<>> ELSE IF c % 10 = 0 THEN <<46, 48 + c \div 10>> ELSE <<46>> \o D2(c)
    IN D2(p[1] \div 100) \o D2(p[1]) \o <<45>> \o D2(p[2]) \o <<45>> \o D2(p[3]) \o <<84>>
       \o D2(p[4]) \o <<58>> \o D2(p[5]) \o <<58>> \o D2(p[6]) \o frac \o T("+00:00"))

-----------------------------------------------------------------------------
(* Decimals.                                                                 *)
DecText(d) ==
    IF d.x >= 0 THEN Dec(Mul(d.c, Pow(I(10), d.x)))
    ELSE LET t == MDec(d.c.m)
             u == IF Len(t) > -d.x THEN t ELSE [i \in 1 .. 1 - d.x - Len(t) |-> 48] \o t
         IN (IF d.c.n THEN <<45>> ELSE <<>>) \o SubSeq(u, 1, Len(u) + d.x) \o <<46>> \o SubSeq(u, Len(u) + d.x + 1, Len(u))
LOCAL Scaled(d, x) == Mul(d.c, Pow(I(10), d.x - x))
LOCAL MinX(a, b) == IF a.x < b.x THEN a.x ELSE b.x
DecAdd(a, b) == DecNorm(Add(Scaled(a, MinX(a, b)), Scaled(b, MinX(a, b))), MinX(a, b))
DecNeg(a) == [a EXCEPT !.c = Neg(@)]
DecMul(a, b) == DecNorm(Mul(a.c, b.c), a.x + b.x)
DecCmp(a, b) == Cmp(Scaled(a, MinX(a, b)), Scaled(b, MinX(a, b)))
\* num / den to an integer, half away from zero
LOCAL HalfAway(num, den) == With(QuoRem(num, den), LAMBDA q :
    IF MCmp(MMulSmall(q.r.m, 2), den.m) >= 0 THEN Add(q.q, IF num.n # den.n THEN I(-1) ELSE I(1)) ELSE q.q)
DecDiv(a, b) == LET k == a.x - b.x + 16 IN
    DecNorm(HalfAway(IF k >= 0 THEN Mul(a.c, Pow(I(10), k)) ELSE a.c, IF k >= 0 THEN b.c ELSE Mul(b.c, Pow(I(10), -k))), -16)
DecTrunc(d) == IF d.x >= 0 THEN Mul(d.c, Pow(I(10), d.x)) ELSE Quo(d.c, Pow(I(10), -d.x))
DecRound(d, how) ==
    IF d.x >= 0 THEN d
    ELSE LET p == Pow(I(10), -d.x) IN
         DecNorm(CASE how = "floor" -> FloorDiv(d.c, p)
                   [] how = "ceil" -> Neg(FloorDiv(Neg(d.c), p))
                   [] how = "round" -> HalfAway(d.c, p), 0)
DecDouble(d) == IF IsZero(d.c) THEN Zero(FALSE)
                ELSE IF d.x >= 0 THEN OfRatio(d.c.n, MMul(d.c.m, Ten(d.x)), <<1>>) ELSE OfRatio(d.c.n, d.c.m, Ten(-d.x))

\* The shortest decimal that reads back as the finite double d, as a decimal:
\* the nearest of those, and of two as near the even one.
LOCAL Exact(d) == IF d.e >= 0 THEN [c |-> MMul(d.m, Pow(I(2), d.e).m), x |-> 0]
                  ELSE [c |-> MMul(d.m, Pow(I(5), -d.e).m), x |-> d.e]
RECURSIVE Shorten(_, _, _)
\* the exact decimal e with digits t to k digits, rounded down and up, nearest first
LOCAL Cut(e, t, k) ==
    IF Len(t) <= k THEN <<[c |-> Mk(FALSE, e.c), x |-> e.x]>>
    ELSE LET p == Pow(I(10), Len(t) - k)
             x == e.x + Len(t) - k
         IN With(QuoRem(Mk(FALSE, e.c), p), LAMBDA q :
            LET down == [c |-> q.q, x |-> x]
                up == [c |-> Add(q.q, I(1)), x |-> x]
                side == MCmp(MMulSmall(q.r.m, 2), p.m)
            IN IF IsZero(q.r) THEN <<down>>
               ELSE IF side < 0 \/ (side = 0 /\ ~Odd(q.q)) THEN <<down, up>> ELSE <<up, down>>)
Shorten(d, e, k) ==
    With(Cut(e, MDec(e.c), k), LAMBDA q :
    With({i \in DOMAIN q : FCmp(DecDouble(q[i]), FAbs(d)) = 0}, LAMBDA good :
    IF good = {} THEN Shorten(d, e, k + 1)
    ELSE With(q[CHOOSE i \in good : \A j \in good : i <= j], LAMBDA r : DecNorm(Mk(d.n, r.c.m), r.x))))
Shortest(d) == IF d.m = <<>> THEN [c |-> Int0, x |-> 0]
               ELSE IF d.e >= 0 \/ (d.e >= -60 /\ Mod(Mk(FALSE, d.m), P2[-d.e]) = Int0)
               THEN \* an integer: its shortest form has at most 17 digits
                    With(ToInteger(d, "trunc"), LAMBDA i : IF MCmp(i.m, P2[53].m) <= 0 THEN DecNorm(i, 0)
                                                           ELSE With(Exact(d), LAMBDA e : Shorten(d, e, 15)))
               ELSE With(Exact(d), LAMBDA e : Shorten(d, e, 1))

FixedText(d) == IF d.k = "nan" THEN T("NaN") ELSE IF d.k = "inf" THEN (IF d.n THEN T("-Inf") ELSE T("+Inf"))
                ELSE With(FixedParts(d, 6), LAMBDA p : p.sign \o p.int \o <<46>> \o p.frac)

-----------------------------------------------------------------------------
(* Conversion.                                                               *)
LOCAL FromInt(i, t) ==
    CASE t = "Boolean" -> Bool(~IsZero(i))
      [] t \in {"Int32", "Int64"} -> X(t, Wrap(i, Width(t)))
      [] t = "Decimal" -> X(t, DecNorm(i, 0))
      [] t = "Double" -> X(t, OfInt(i))
      [] t = "String" -> Str(Dec(i))
      [] OTHER -> Err
\* Integers of a number that has been truncated: beyond 64 bits nothing is said.
LOCAL Truncated(i, t) == IF Fits(i, 64) THEN X(t, Wrap(i, Width(t))) ELSE AnyX
LOCAL FromDec(d, t) ==
    CASE t = "Boolean" -> Bool(~IsZero(d.c))
      [] t \in {"Int32", "Int64"} -> Truncated(DecTrunc(d), t)
      [] t = "Decimal" -> X(t, d)
      [] t = "Double" -> X(t, DecDouble(d))
      [] t = "String" -> Str(DecText(d))
      [] OTHER -> Err
LOCAL FromDbl(d, t) ==
    CASE t = "Boolean" -> Bool(~IsZeroF(d))
      [] t \in {"Int32", "Int64"} -> IF d.k # "num" THEN AnyX
                                     ELSE With(ToInteger(d, "trunc"), LAMBDA i : IF Fits(i, Width(t)) THEN X(t, i) ELSE AnyX)
      [] t = "Decimal" -> IF d.k # "num" THEN Err ELSE IF d.m # <<>> /\ (d.e < -200 \/ d.e > 200) THEN AnyX ELSE X(t, Shortest(d))
      [] t = "Double" -> X(t, d)
      [] t = "String" -> Str(FixedText(d))
      [] OTHER -> Err
Truths == {T("1"), T("t"), T("T"), T("TRUE"), T("true"), T("True")}
LOCAL FromText(s, t) ==
    CASE t = "Boolean" -> Bool(s \in Truths)
      [] t \in {"Int32", "Int64"} -> CASE NumShape(s) = "dec" -> Truncated(DecTrunc(DecOf(s)), t)
                                       [] NumShape(s) \in {"none", "special"} -> X(t, Int0)
                                       [] OTHER -> AnyX
      [] t = "Decimal" -> CASE NumShape(s) = "dec" -> X(t, DecOf(s))
                            [] NumShape(s) \in {"none", "special"} -> X(t, [c |-> Int0, x |-> 0])
                            [] OTHER -> AnyX
      [] t = "Double" -> CASE NumShape(s) = "dec" -> X(t, DblOfText(s))
                           [] NumShape(s) = "none" -> X(t, Zero(FALSE))
                           [] NumShape(s) = "special" /\ Lower(s) # T("nan") /\ Find(Lower(s), T("nan"), 1) = 0 -> X(t, DblOfText(s))
                           [] OTHER -> AnyX
      [] t = "String" -> Str(s)
      [] t = "Guid" -> With(ParseOf(s), LAMBDA g : IF Lenient(s) \/ (g = <<>> /\ Len(s) \in {32, 36, 38, 45}) THEN AnyX
                                                   ELSE X(t, IF g = <<>> THEN [i \in 1 .. 16 |-> 0] ELSE g[1]))
      [] t = "DateTime" -> With(DateShape(s), LAMBDA d : CASE d.t = "DateTime" -> d
                                                           [] d.t = "bad" -> IF HasDigit(s) THEN AnyX ELSE X(t, ZeroTime)
                                                           [] OTHER -> AnyX)
Conv(a, t) ==
    IF ~Firm(a) THEN Soft(a)
    ELSE IF a.n THEN NullX(t)
    ELSE CASE a.t = "Boolean" -> IF t = "String" THEN Str(IF a.v THEN T("true") ELSE T("false")) ELSE FromInt(IF a.v THEN I(1) ELSE Int0, t)
           [] a.t \in {"Int32", "Int64"} -> FromInt(a.v, t)
           [] a.t = "Decimal" -> FromDec(a.v, t)
           [] a.t = "Double" -> FromDbl(a.v, t)
           [] a.t = "String" -> FromText(a.v, t)
           [] a.t = "Guid" -> CASE t = "String" -> Str(TextOf(a.v)) [] t = "Guid" -> a [] OTHER -> Err
           [] a.t = "DateTime" -> CASE t = "String" -> Str(StampText(a.v)) [] t = "DateTime" -> a [] OTHER -> FromInt(Unix(a.v), t)

-----------------------------------------------------------------------------
(* Operators.                                                                *)
ArithType(o, a, b) == IF IsNumericT(a) /\ IsNumericT(b) THEN (IF Rank[a] >= Rank[b] THEN a ELSE b)
                      ELSE IF o = "+" /\ (a = "String" \/ (b = "String" /\ IsNumericT(a))) THEN "String" ELSE "error"
IntegerType(a, b) == IF IsIntegerT(a) /\ IsIntegerT(b) THEN (IF Rank[a] >= Rank[b] THEN a ELSE b) ELSE "error"
CmpType(a, b) ==
    CASE a = "String" -> "String"
      [] a = "Guid" -> IF b \in {"Guid", "String"} THEN "Guid" ELSE "error"
      [] a = "DateTime" -> IF b \in {"DateTime", "String"} THEN "DateTime" ELSE "error"
      [] b \in {"Guid", "DateTime"} -> "error"
      [] a = "Boolean" -> IF b = "String" THEN "Boolean" ELSE b
      [] b = "String" -> IF a = "Double" THEN "Double" ELSE "Decimal"
      [] OTHER -> IF Rank[a] >= Rank[b] THEN a ELSE b
LOCAL BInt(b) == IF b THEN 1 ELSE 0

\* Both operands converted to t, then Op on their values.
LOCAL Lift(a, b, t, Op(_, _)) ==
    With(Conv(a, t), LAMBDA x : With(Conv(b, t), LAMBDA y : IF ~Firm(x) \/ ~Firm(y) THEN Both(x, y) ELSE Op(x.v, y.v)))
LOCAL ArithOn(o, t, x, y) ==
    CASE t = "String" -> Str(x \o y)
      [] t = "Boolean" -> (CASE o = "+" -> Bool(x \/ y) [] o = "-" -> Bool(x # y) [] OTHER -> Err)
      [] t \in {"Int32", "Int64"} ->
           (CASE o = "+" -> X(t, Wrap(Add(x, y), Width(t)))
              [] o = "-" -> X(t, Wrap(Sub(x, y), Width(t)))
              [] o = "*" -> X(t, Wrap(Mul(x, y), Width(t)))
              [] o = "/" -> IF IsZero(y) THEN Err ELSE X(t, Wrap(Quo(x, y), Width(t))))
      [] t = "Decimal" ->
           (IF (x.x - y.x > 500 \/ y.x - x.x > 500) THEN AnyX
            ELSE CASE o = "+" -> X(t, DecAdd(x, y))
                   [] o = "-" -> X(t, DecAdd(x, DecNeg(y)))
                   [] o = "*" -> X(t, DecMul(x, y))
                   [] o = "/" -> IF IsZero(y.c) THEN Err ELSE X(t, DecDiv(x, y)))
      [] t = "Double" ->
           (CASE o = "+" -> X(t, FAdd(x, y)) [] o = "-" -> X(t, FSub(x, y)) [] o = "*" -> X(t, FMul(x, y)) [] o = "/" -> X(t, FDiv(x, y)))
Arith(o, a, b) ==
    LET t == ArithType(o, a.t, b.t) IN
    IF t = "error" THEN Err ELSE IF a.n \/ b.n THEN NullX(t) ELSE Lift(a, b, t, LAMBDA x, y : ArithOn(o, t, x, y))

\* Bit operations on two's complement, in pieces of 16 bits.
LOCAL Pieces(a, w) == LET u == UWrap(a, w) IN [i \in 1 .. w \div 16 |-> ToInt(Mod(Quo(u, P2[16 * (i - 1)]), P2[16]))]
LOCAL BitsOn(o, p, q) == CASE o = "&" -> p & q [] o = "|" -> p | q [] o = "^" -> p ^^ q
LOCAL BitOp(o, a, b, w) ==
    With(Pieces(a, w), LAMBDA p : With(Pieces(b, w), LAMBDA q :
    Wrap(FoldRight(LAMBDA d, r : Add(Mul(r, P2[16]), I(d)), [i \in DOMAIN p |-> BitsOn(o, p[i], q[i])], Int0), w)))
LOCAL IntOn(o, t, x, y) ==
    CASE t = "Boolean" -> (CASE o = "&" -> Bool(x /\ y) [] o = "|" -> Bool(x \/ y) [] o = "^" -> Bool(x # y) [] OTHER -> Err)
      [] o = "%" -> IF IsZero(y) THEN Err ELSE X(t, Rem(x, y))
      [] OTHER -> X(t, BitOp(o, x, y, Width(t)))
IntegerOp(o, a, b) ==
    LET t == IntegerType(a.t, b.t) IN
    IF t = "error" THEN Err ELSE IF a.n \/ b.n THEN NullX(t) ELSE Lift(a, b, t, LAMBDA x, y : IntOn(o, t, x, y))

\* A negative amount counts from the width; an amount of the width or more shifts everything out.
ShiftOp(o, a, b) ==
    IF a.n THEN a
    ELSE IF ~IsIntegerT(b.t) \/ b.n \/ ~IsIntegerT(a.t) THEN Err
    ELSE LET w == Width(a.t)
             v == IF a.t = "Boolean" THEN I(BInt(a.v)) ELSE a.v
             amt == IF b.t = "Boolean" THEN I(BInt(b.v)) ELSE b.v
             k == IF amt.n THEN w - ToInt(Mod(Abs(amt), I(w))) ELSE IF Lt(amt, I(w)) THEN ToInt(amt) ELSE w
             r == IF o = "<<" THEN Wrap(Mul(v, P2[k]), w) ELSE FloorDiv(v, P2[k])
         IN IF a.t = "Boolean" THEN Bool(~IsZero(r)) ELSE X(a.t, r)

\* -1, 0, 1, or 2 when the two cannot be ordered.
CmpOn(t, x, y, exact) ==
    CASE t = "Boolean" -> BInt(x) - BInt(y)
      [] t \in {"Int32", "Int64"} -> Cmp(x, y)
      [] t = "Decimal" -> DecCmp(x, y)
      [] t = "Double" -> FCmp(x, y)
      [] t = "String" -> IF exact THEN TextCmp(x, y) ELSE TextCmp(UpperU(x), UpperU(y))
      [] t = "Guid" -> Order(x, y)
      [] t = "DateTime" -> IF x.s = y.s THEN (IF x.ns = y.ns THEN 0 ELSE IF x.ns < y.ns THEN -1 ELSE 1) ELSE Cmp(x.s, y.s)
Holds(o, c) ==
    CASE o \in {"=", "==", "==="} -> c = 0
      [] o \in {"<>", "!=", "!=="} -> c # 0
      [] o = "<" -> c = -1 [] o = "<=" -> c \in {-1, 0}
      [] o = ">" -> c = 1 [] o = ">=" -> c \in {0, 1}
CompareAs(t, o, a, b) ==
    IF t = "error" THEN Err
    ELSE IF a.n \/ b.n THEN NullX("Boolean")
    ELSE LET exact == o \in {"===", "!=="} IN
         Lift(a, b, t, LAMBDA x, y : IF t = "String" /\ ~exact /\ (~Clean(x) \/ ~Clean(y)) THEN AnyX
                                     ELSE IF t = "Decimal" /\ (x.x - y.x > 500 \/ y.x - x.x > 500) THEN AnyX
                                     ELSE Bool(Holds(o, CmpOn(t, x, y, exact))))
Compare(o, a, b) == CompareAs(CmpType(a.t, b.t), o, a, b)

Logic(o, a, b) == IF a.t # "Boolean" \/ b.t # "Boolean" THEN Err
                  ELSE IF a.n \/ b.n THEN NullX("Boolean")
                  ELSE Bool(IF o = "AND" THEN a.v /\ b.v ELSE a.v \/ b.v)

\* Wildcards (% or *) at either end of the pattern.
Like(a, b, exact) ==
    IF a.n THEN NullX("Boolean")
    ELSE IF a.t # "String" \/ b.t # "String" \/ b.n THEN Err
    ELSE IF ~Clean(a.v) \/ ~Clean(b.v) THEN AnyX
    ELSE LET p == [i \in DOMAIN b.v |-> IF b.v[i] = 37 THEN 42 ELSE b.v[i]]
             front == p # <<>> /\ p[1] = 42
             q == IF front THEN Tail(p) ELSE p
             back == q # <<>> /\ q[Len(q)] = 42
             r == IF back THEN SubSeq(q, 1, Len(q) - 1) ELSE q
             s == Fold(a.v, ~exact)
             m == Fold(r, ~exact)
         IN IF 42 \in {r[i] : i \in DOMAIN r} THEN Err
            ELSE IF r = <<>> /\ (front \/ back) THEN Bool(TRUE)
            ELSE IF front /\ back THEN Bool(Find(s, m, 1) # 0)
            ELSE IF front THEN Bool(Len(s) >= Len(m) /\ SubSeq(s, Len(s) - Len(m) + 1, Len(s)) = m)
            ELSE IF back THEN Bool(Len(s) >= Len(m) /\ SubSeq(s, 1, Len(m)) = m)
            ELSE Bool(s = m)
NotB(a) == IF a.t = "Boolean" /\ ~a.n THEN Bool(~a.v) ELSE a

Unary(o, a) ==
    IF ~Firm(a) THEN Soft(a)
    ELSE IF a.n THEN a
    ELSE CASE a.t = "Boolean" -> IF o = "NOT" THEN Bool(~a.v) ELSE Err
           [] a.t \in {"Int32", "Int64"} -> X(a.t, Wrap(CASE o = "-" -> Neg(a.v) [] o = "+" -> a.v [] o = "NOT" -> Sub(I(-1), a.v), Width(a.t)))
           [] a.t = "Decimal" -> (CASE o = "-" -> X(a.t, DecNeg(a.v)) [] o = "+" -> a [] OTHER -> Err)
           [] a.t = "Double" -> (CASE o = "-" -> X(a.t, FNeg(a.v)) [] o = "+" -> a [] OTHER -> Err)
           [] OTHER -> Err

Binary(o, a, b) ==
    IF ~Firm(a) \/ ~Firm(b) THEN Both(a, b)
    ELSE CASE o \in {"+", "-", "*", "/"} -> Arith(o, a, b)
           [] o \in {"%", "&", "|", "^"} -> IntegerOp(o, a, b)
           [] o \in {"<<", ">>"} -> ShiftOp(o, a, b)
           [] o \in {"AND", "OR"} -> Logic(o, a, b)
           [] OTHER -> Compare(o, a, b)

-----------------------------------------------------------------------------
(* Literals and columns.                                                     *)
Inner(s) == SubSeq(s, 2, Len(s) - 1)
LOCAL HexOf(t) == FoldLeft(LAMBDA r, c : Add(Mul(r, I(16)), I(HexVal(c))), Int0, t)
LOCAL Undouble(s) == FoldLeft(LAMBDA r, c : IF c = 39 /\ r.q THEN [r EXCEPT !.q = FALSE] ELSE [t |-> Append(r.t, c), q |-> c = 39],
                              [t |-> <<>>, q |-> FALSE], s).t
IntLit(s) == With(IF Len(s) > 2 /\ s[2] \in {120, 88} THEN HexOf(SubSeq(s, 3, Len(s))) ELSE Of(s), LAMBDA i :
             IF Fits(i, 32) THEN I32(i) ELSE IF Fits(i, 64) THEN X("Int64", i) ELSE X("Decimal", DecNorm(i, 0)))
Lit(k, s) ==
    CASE k = "int" -> IntLit(s)
      [] k = "num" -> IF 101 \in {Lower(s)[i] : i \in DOMAIN s} THEN X("Double", DblOfText(s)) ELSE X("Decimal", DecOf(s))
      [] k = "str" -> With(Inner(s), LAMBDA u : IF ParseOf(u) # <<>> THEN X("Guid", ParseOf(u)[1]) ELSE Str(Undouble(u)))
      [] k = "guid" -> X("Guid", ParseOf(IF s[1] = 39 THEN Inner(s) ELSE s)[1])
      [] k = "date" -> With(DateShape(Inner(s)), LAMBDA d : CASE d.t = "DateTime" -> d [] d.t = "bad" -> Err [] OTHER -> AnyX)
      [] k = "bool" -> Bool(Lower(s) = T("true"))

\* The type a column's values have in an expression.
ColType(t) == CASE t \in {"Int8", "Int16", "Int32", "UInt8", "UInt16"} -> "Int32"
                [] t \in {"UInt32", "Int64", "UInt64"} -> "Int64"
                [] t \in {"Single", "Double"} -> "Double"
                [] OTHER -> t
CellOf(t, w) == IF w.t = "null" THEN NullX(ColType(t))
                ELSE IF t = "UInt64" /\ ~Fits(w.v, 64) THEN X("Double", OfInt(w.v))
                ELSE X(ColType(t), w.v)
Cell(t, o) == With(Seen(o), LAMBDA w : CellOf(t, w))
Named(s) == IF s # <<>> /\ s[1] \in {91, 96} THEN Inner(s) ELSE s
\* row: sequence of [n |-> name, v |-> value]
Column(row, s) == LET hit == {i \in DOMAIN row : UpperU(row[i].n) = UpperU(Named(s))} IN
                  IF hit = {} THEN Err ELSE row[CHOOSE i \in hit : TRUE].v

-----------------------------------------------------------------------------
(* Functions of evaluated arguments.                                         *)
\* Name -> <<least, most arguments, types of NULL arguments>>
Sig == [ABS |-> <<1, 1, <<"Double">>>>, CEILING |-> <<1, 1, <<"Double">>>>, FLOOR |-> <<1, 1, <<"Double">>>>, ROUND |-> <<1, 1, <<"Double">>>>,
        SQRT |-> <<1, 1, <<"Double">>>>, CONVERT |-> <<2, 2, <<"String", "String">>>>,
        CONTAINS |-> <<2, 3, <<"String", "String", "Boolean">>>>, STARTSWITH |-> <<2, 3, <<"String", "String", "Boolean">>>>,
        ENDSWITH |-> <<2, 3, <<"String", "String", "Boolean">>>>, INDEXOF |-> <<2, 3, <<"String", "String", "Boolean">>>>,
        LASTINDEXOF |-> <<2, 3, <<"String", "String", "Boolean">>>>, NTHINDEXOF |-> <<3, 4, <<"String", "String", "Int32", "Boolean">>>>,
        REPLACE |-> <<3, 4, <<"String", "String", "String", "Boolean">>>>, SPLIT |-> <<3, 4, <<"String", "String", "Int32", "Boolean">>>>,
        STRCOUNT |-> <<2, 3, <<"String", "String", "Boolean">>>>, STRCMP |-> <<2, 3, <<"String", "String", "Boolean">>>>,
        SUBSTR |-> <<2, 3, <<"String", "Int32", "Int32">>>>, TRIM |-> <<1, 1, <<"String">>>>, TRIMLEFT |-> <<1, 1, <<"String">>>>,
        TRIMRIGHT |-> <<1, 1, <<"String">>>>, UPPER |-> <<1, 1, <<"String">>>>, LOWER |-> <<1, 1, <<"String">>>>,
        REVERSE |-> <<1, 1, <<"String">>>>, LEN |-> <<1, 1, <<"String">>>>, REGEXMATCH |-> <<2, 2, <<"String", "String">>>>,
        REGEXVAL |-> <<2, 2, <<"String", "String">>>>, ISNULL |-> <<2, 2, <<"String", "String">>>>, ISDATE |-> <<1, 1, <<"Boolean">>>>,
        ISINTEGER |-> <<1, 1, <<"Boolean">>>>, ISGUID |-> <<1, 1, <<"Boolean">>>>, ISNUMERIC |-> <<1, 1, <<"Boolean">>>>,
        POWER |-> <<2, 2, <<"Double", "Int32">>>>, NOW |-> <<0, 0, <<>>>>, UTCNOW |-> <<0, 0, <<>>>>,
        DATEADD |-> <<3, 3, <<"DateTime", "Int32", "String">>>>, DATEDIFF |-> <<3, 3, <<"DateTime", "DateTime", "String">>>>,
        DATEPART |-> <<2, 2, <<"DateTime", "String">>>>]
LazyFns == {"COALESCE", "IIF", "MAXOF", "MINOF"}

FloatOf(a) == Conv(a, "Double")
Rounding(f, a) ==
    IF ~IsNumericT(a.t) THEN Err
    ELSE IF a.n THEN a
    ELSE IF f = "SQRT" THEN With(FloatOf(a).v, LAMBDA d : IF d.k = "nan" \/ (d.n /\ ~IsZeroF(d)) THEN X("Double", NaN)
                                                          ELSE IF d.k = "inf" THEN X("Double", d) ELSE X("sqrt", d))
    ELSE IF f = "ABS" THEN (CASE a.t \in {"Int32", "Int64"} -> X(a.t, Wrap(Abs(a.v), Width(a.t)))
                              [] a.t = "Decimal" -> X(a.t, [a.v EXCEPT !.c = Abs(@)])
                              [] a.t = "Double" -> X(a.t, FAbs(a.v))
                              [] OTHER -> a)
    ELSE LET how == CASE f = "CEILING" -> "ceil" [] f = "FLOOR" -> "floor" [] f = "ROUND" -> "round" IN
         CASE a.t = "Decimal" -> X(a.t, DecRound(a.v, how)) [] a.t = "Double" -> X(a.t, FRound(a.v, how)) [] OTHER -> a

Begins(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
TypeNamed(s) ==
    LET u0 == Upper(s)
        u == IF Begins(u0, T("SYSTEM.")) /\ Len(u0) > 7 THEN SubSeq(u0, 8, Len(u0)) ELSE u0
        exact == {t \in {"Boolean", "Int32", "Int64", "Decimal", "Double", "String", "Guid", "DateTime"} : Upper(T(t)) = u}
    IN IF exact # {} THEN CHOOSE t \in exact : TRUE
       ELSE IF u = T("SINGLE") \/ Begins(u, T("FLOAT")) THEN "Double"
       ELSE IF u = T("BOOL") THEN "Boolean"
       ELSE IF Begins(u, T("INT")) \/ Begins(u, T("UINT")) THEN "Int64"
       ELSE IF u \in {T("DATE"), T("TIME")} THEN "DateTime"
       ELSE IF u = T("UUID") THEN "Guid" ELSE "error"
ConvertFn(a, b) == IF b.t # "String" \/ b.n THEN Err
                   ELSE LET t == TypeNamed(b.v) IN IF t = "error" THEN Err ELSE Conv(a, t)

\* Positions of x in t that do not overlap, from the left.
RECURSIVE Occ(_, _, _)
Occ(t, x, from) == With(Find(t, x, from), LAMBDA k : IF k = 0 \/ x = <<>> THEN <<>> ELSE <<k>> \o Occ(t, x, k + Len(x)))
\* All positions, overlapping ones too (an empty text is everywhere, the end included).
AllOcc(t, x) == SelectSeq([i \in 1 .. Len(t) + 1 |-> i], LAMBDA i : i + Len(x) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(x) - 1) = x)
IntOf(a) == IF a.t = "Boolean" THEN I(BInt(a.v)) ELSE a.v
\* A small integer for an index: anything beyond is as good as 100000.
Small(i) == IF i.n THEN -1 ELSE IF Lt(i, I(100000)) THEN ToInt(i) ELSE 100000
\* The optional ignore-case argument.
Flagged(a, k, F(_)) == IF Len(a) < k THEN F(FALSE)
                       ELSE With(Conv(a[k], "Boolean"), LAMBDA b : IF ~Firm(b) THEN Soft(b) ELSE F(~b.n /\ b.v))
AllStr(a, s) == \A i \in s : a[i].t = "String"
CleanAll(a, s) == \A i \in s : a[i].n \/ Clean(a[i].v)
Tests(f, a) ==
    IF ~AllStr(a, {1, 2}) THEN Err
    ELSE IF a[1].n THEN NullX("Boolean")
    ELSE IF a[2].n THEN Bool(FALSE)
    ELSE Flagged(a, 3, LAMBDA ic : IF ic /\ ~CleanAll(a, {1, 2}) THEN AnyX
                                   ELSE LET s == Fold(a[1].v, ic)
                                            x == Fold(a[2].v, ic)
                                        IN Bool(CASE f = "CONTAINS" -> Find(s, x, 1) # 0
                                                  [] f = "STARTSWITH" -> Begins(s, x)
                                                  [] f = "ENDSWITH" -> Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x))
Indexes(f, a) ==
    LET nth == f = "NTHINDEXOF"
        k == IF nth THEN 4 ELSE 3
    IN IF ~AllStr(a, {1, 2}) \/ (nth /\ ~IsIntegerT(a[3].t)) \/ a[2].n \/ (nth /\ a[3].n) THEN Err
       ELSE IF a[1].n THEN NullX("Int32")
       ELSE Flagged(a, k, LAMBDA ic : IF ic /\ ~CleanAll(a, {1, 2}) THEN AnyX
            ELSE With(AllOcc(Fold(a[1].v, ic), Fold(a[2].v, ic)), LAMBDA q :
                 LET i == CASE f = "INDEXOF" -> 1 [] f = "LASTINDEXOF" -> Len(q) [] nth -> Small(IntOf(a[3])) + 1
                 IN I32(I(IF i >= 1 /\ i <= Len(q) THEN q[i] - 1 ELSE -1))))
Runes(s) == SelectSeq([i \in 1 .. Len(s) |-> i], LAMBDA i : ~Cont(s[i]))      \* where characters start
RuneAt(s, i) == IF i < Len(s) /\ Cont(s[i + 1]) THEN SubSeq(s, i, i + 1) ELSE <<s[i]>>
ReplaceIn(s, q, n, r) == \* each n codes at the positions q of s replaced by r
    With(FoldLeft(LAMBDA w, k : [o |-> w.o \o SubSeq(s, w.i, k - 1) \o r, i |-> k + n], [o |-> <<>>, i |-> 1], q), LAMBDA w :
         w.o \o SubSeq(s, w.i, Len(s)))
ReplaceFn(a) ==
    IF ~AllStr(a, {1, 2, 3}) \/ a[2].n \/ a[3].n THEN Err
    ELSE IF a[1].n THEN a[1]
    ELSE Flagged(a, 4, LAMBDA ic : IF ~CleanAll(a, {1, 2, 3}) THEN AnyX
         ELSE IF a[2].v = <<>> THEN Str(FoldLeft(LAMBDA o, i : o \o a[3].v \o RuneAt(a[1].v, i), <<>>, Runes(a[1].v)) \o a[3].v)
         ELSE Str(ReplaceIn(a[1].v, Occ(Fold(a[1].v, ic), Fold(a[2].v, ic), 1), Len(a[2].v), a[3].v)))
SplitFn(a) ==
    IF ~AllStr(a, {1, 2}) \/ ~IsIntegerT(a[3].t) \/ a[2].n \/ a[3].n THEN Err
    ELSE IF a[1].n THEN a[1]
    ELSE Flagged(a, 4, LAMBDA ic : IF ~CleanAll(a, {1, 2}) THEN AnyX
         ELSE With(Occ(Fold(a[1].v, ic), Fold(a[2].v, ic), 1), LAMBDA q :
              LET i == Small(IntOf(a[3]))
                  n == Len(a[2].v)
              IN IF i < 0 \/ i > Len(q) THEN Str(<<>>)
                 ELSE Str(SubSeq(a[1].v, IF i = 0 THEN 1 ELSE q[i] + n, IF i = Len(q) THEN Len(a[1].v) ELSE q[i + 1] - 1))))
CountFn(a) ==
    IF ~AllStr(a, {1, 2}) THEN Err
    ELSE IF a[1].n \/ a[2].n THEN I32(Int0)
    ELSE IF a[2].v = <<>> THEN I32(Int0)
    ELSE Flagged(a, 3, LAMBDA ic : IF ic /\ ~CleanAll(a, {1, 2}) THEN AnyX ELSE I32(I(Len(Occ(Fold(a[1].v, ic), Fold(a[2].v, ic), 1)))))
StrCmpFn(a) ==
    IF ~AllStr(a, {1, 2}) THEN Err
    ELSE IF a[1].n \/ a[2].n THEN I32(I(BInt(~a[1].n) - BInt(~a[2].n)))
    ELSE Flagged(a, 3, LAMBDA ic : IF ic /\ ~CleanAll(a, {1, 2}) THEN AnyX ELSE I32(I(TextCmp(Fold(a[1].v, ic), Fold(a[2].v, ic)))))
SubStrFn(a) ==
    IF a[1].t # "String" \/ ~IsIntegerT(a[2].t) \/ (Len(a) = 3 /\ ~IsIntegerT(a[3].t)) \/ a[2].n THEN Err
    ELSE IF a[1].n THEN a[1]
    ELSE LET s == a[1].v
             i == Small(IntOf(a[2]))
             n == IF Len(a) = 3 /\ ~a[3].n THEN Small(IntOf(a[3])) ELSE 100000
         IN IF i < 0 \/ i >= Len(s) \/ n <= 0 THEN Str(<<>>) ELSE Str(SubSeq(s, i + 1, Min2(Len(s), i + n)))
TextFn(f, s) ==
    CASE f = "LEN" -> I32(I(Len(s)))
      [] ~Clean(s) -> AnyX
      [] f = "TRIM" -> Str(Trim(s)) [] f = "TRIMLEFT" -> Str(TrimLeft(s)) [] f = "TRIMRIGHT" -> Str(TrimRight(s))
      [] f = "UPPER" -> Str(UpperU(s)) [] f = "LOWER" -> Str(LowerU(s))
      [] f = "REVERSE" -> Str(FoldLeft(LAMBDA o, i : RuneAt(s, i) \o o, <<>>, Runes(s)))

\* Regular expressions: a sequence of characters, '.', \d and [classes], each with an optional ?, * or +, between optional ^ and $.
Ascii == 0 .. 127
LOCAL Plainc(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c \in {32, 44, 45, 58, 61, 95}
LOCAL ClassOf(t) == \* members of a class body: characters and ranges
    ({t[i] : i \in DOMAIN t} \ {45}) \cup UNION {t[i - 1] .. t[i + 1] : i \in {j \in 2 .. Len(t) - 1 : t[j] = 45}}
RECURSIVE Atoms(_, _)
Atoms(r, i) == \* <<ok, atoms>>
    IF i > Len(r) THEN <<TRUE, <<>>>>
    ELSE LET c == r[i]
             close == IF c = 91 THEN Find(r, <<93>>, i) ELSE 0
             body == IF close = 0 THEN <<>> ELSE SubSeq(r, i + 1, close - 1)
             good == \/ Plainc(c) \/ c = 46
                     \/ c = 92 /\ i < Len(r) /\ r[i + 1] \in {100, 46}
                     \/ close # 0 /\ body # <<>> /\ (\A k \in DOMAIN body : Plainc(body[k])) /\ body[1] # 45 /\ body[Len(body)] # 45
             next == IF c = 92 THEN i + 2 ELSE IF c = 91 THEN close + 1 ELSE i + 1
             set == IF c = 46 THEN Ascii \ {10} ELSE IF c = 92 THEN (IF r[i + 1] = 100 THEN 48 .. 57 ELSE {46}) ELSE IF c = 91 THEN ClassOf(body) ELSE {c}
             q == IF next <= Len(r) /\ r[next] \in {63, 42, 43} THEN r[next] ELSE 0
         IN IF ~good THEN <<FALSE, <<>>>>
            ELSE With(Atoms(r, IF q = 0 THEN next ELSE next + 1), LAMBDA z : <<z[1], <<[s |-> set, q |-> q]>> \o z[2]>>)
RECURSIVE Match(_, _, _, _, _)
\* The end (exclusive) of the greedy match of atoms k.. at i, or 0.
LOCAL Run(at, t, i) == LET stop == {j \in i .. Len(t) : t[j] \notin at.s} IN (IF stop = {} THEN Len(t) + 1 ELSE CHOOSE j \in stop : \A l \in stop : j <= l) - i
Match(q, k, t, i, atEnd) ==
    IF k > Len(q) THEN (IF atEnd /\ i # Len(t) + 1 THEN 0 ELSE i)
    ELSE LET r == Run(q[k], t, i)
             hi == IF q[k].q \in {0, 63} THEN Min2(r, 1) ELSE r
             lo == IF q[k].q \in {0, 43} THEN 1 ELSE 0
             tries == [j \in 1 .. (IF hi >= lo THEN hi - lo + 1 ELSE 0) |-> hi + 1 - j]
         IN FoldLeft(LAMBDA w, n : IF w # 0 THEN w ELSE Match(q, k + 1, t, i + n, atEnd), 0, tries)
RegexFn(f, a) ==
    IF ~AllStr(a, {1, 2}) THEN Err
    ELSE IF a[1].n \/ a[2].n THEN NullX(IF f = "REGEXVAL" THEN "String" ELSE "Boolean")
    ELSE LET r == a[1].v
             t == a[2].v
             front == r # <<>> /\ r[1] = 94
             back == r # <<>> /\ r[Len(r)] = 36
             core == SubSeq(r, IF front THEN 2 ELSE 1, IF back THEN Len(r) - 1 ELSE Len(r))
             has(c) == \E i \in DOMAIN r : r[i] = c
         IN IF (has(40) # has(41) \/ (has(91) /\ ~has(93))) /\ ~has(92) THEN Err
            ELSE IF ~(\A i \in DOMAIN t : t[i] < 128 /\ t[i] >= 32) THEN AnyX
            ELSE With(Atoms(core, 1), LAMBDA q :
                 IF ~q[1] THEN AnyX
                 ELSE With(FoldLeft(LAMBDA w, i : IF w[1] # 0 THEN w ELSE <<Match(q[2], 1, t, i, back), i>>, <<0, 0>>,
                                    IF front THEN <<1>> ELSE [i \in 1 .. Len(t) + 1 |-> i]), LAMBDA m :
                      IF f = "REGEXMATCH" THEN Bool(m[1] # 0) ELSE Str(IF m[1] = 0 THEN <<>> ELSE SubSeq(t, m[2], m[1] - 1))))

IsFn(f, a) ==
    IF a.n THEN Bool(FALSE)
    ELSE CASE f = "ISDATE" -> IF a.t = "DateTime" THEN Bool(TRUE)
                              ELSE IF a.t # "String" THEN Bool(FALSE)
                              ELSE With(DateShape(a.v), LAMBDA d : IF d.t = "open" THEN AnyX ELSE Bool(d.t = "DateTime"))
           [] f = "ISGUID" -> IF a.t = "Guid" THEN Bool(TRUE)
                              ELSE IF a.t # "String" THEN Bool(FALSE)
                              ELSE IF Lenient(a.v) THEN AnyX ELSE Bool(ParseOf(a.v) # <<>>)
           [] f = "ISINTEGER" -> IF IsIntegerT(a.t) THEN Bool(TRUE)
                                 ELSE IF a.t # "String" THEN Bool(FALSE)
                                 ELSE LET b == IF a.v # <<>> /\ a.v[1] \in {43, 45} THEN Tail(a.v) ELSE a.v IN
                                      IF Digits(b) /\ (b[1] # 48 \/ Len(b) = 1) THEN Bool(Fits(Of(a.v), 64))
                                      ELSE IF b = <<>> \/ ~HasDigit(b) \/ \E i \in DOMAIN b : b[i] \in {32, 46, 47, 58, 35, 44} THEN Bool(FALSE) ELSE AnyX
           [] f = "ISNUMERIC" -> IF IsNumericT(a.t) THEN Bool(TRUE)
                                 ELSE IF a.t # "String" THEN Bool(FALSE)
                                 ELSE CASE NumShape(a.v) = "dec" -> Bool(TRUE)
                                        [] NumShape(a.v) = "none" -> Bool(FALSE)
                                        [] OTHER -> AnyX

PowerFn(a, b) ==
    IF ~IsNumericT(a.t) \/ ~IsNumericT(b.t) THEN Err
    ELSE IF a.n \/ b.n THEN NullX(a.t)
    ELSE LET t == ArithType("*", a.t, b.t) IN
         Lift(a, b, t, LAMBDA x, y :
           CASE t = "Boolean" -> Bool(x \/ ~y)
             [] t \in {"Int32", "Int64"} ->
                  (IF y.n THEN (IF x = I(1) THEN X(t, x) ELSE IF x = I(-1) THEN X(t, IF Odd(y) THEN x ELSE I(1)) ELSE IF IsZero(x) THEN AnyX ELSE X(t, Int0))
                   ELSE IF x = I(1) \/ IsZero(x) THEN X(t, IF IsZero(y) THEN I(1) ELSE x)
                   ELSE IF x = I(-1) THEN X(t, IF Odd(y) THEN x ELSE I(1))
                   ELSE IF Lt(I(62), y) THEN AnyX
                   ELSE With(Pow(x, ToInt(y)), LAMBDA p : IF Fits(p, IF t = "Int32" THEN 32 ELSE 53) THEN X(t, p) ELSE AnyX))
             [] t = "Decimal" ->
                  (IF IsZero(x.c) /\ y.c.n THEN Err
                   ELSE IF y.c.n \/ y.x < 0 \/ Lt(I(40), DecTrunc(y)) THEN AnyX
                   ELSE LET k == ToInt(DecTrunc(y)) IN X(t, DecNorm(Pow(x.c, k), x.x * k)))
             [] t = "Double" ->
                  (IF y.k # "num" \/ x.k # "num" \/ IsZeroF(x) \/ (y.m # <<>> /\ (y.e < -60 \/ y.e > 0)) THEN AnyX
                   ELSE With(ToInteger(y, "trunc"), LAMBDA k :
                        IF Lt(I(40), Abs(k)) \/ FCmp(OfInt(k), y) # 0 THEN AnyX
                        ELSE LET n == ToInt(Abs(k))
                                 p == [k |-> "num", n |-> x.n /\ n % 2 = 1, m |-> Pow(Mk(FALSE, x.m), n).m, e |-> x.e * n]
                             IN X("near", [p |-> p, inv |-> k.n]))))

\* Intervals of time.
Intervals == <<"YEAR", "MONTH", "DAYOFYEAR", "DAY", "WEEK", "WEEKDAY", "HOUR", "MINUTE", "SECOND", "MILLISECOND">>
IntervalOf(s) == LET u == Upper(Trim(s))
                     hit == {i \in DOMAIN Intervals : T(Intervals[i]) = u}
                 IN IF hit = {} THEN "error" ELSE Intervals[CHOOSE i \in hit : TRUE]
Seconds == [DAYOFYEAR |-> 86400, DAY |-> 86400, WEEKDAY |-> 86400, WEEK |-> 604800, HOUR |-> 3600, MINUTE |-> 60, SECOND |-> 1]
DateOk(a) == a.t \in {"DateTime", "String"}
OutYears(d) == IF InYears(d) THEN X("DateTime", d) ELSE AnyX
AddMonths(d, k) == \* the day of the month counted on into the next month where it does not exist
    With(Fields(d), LAMBDA p :
    LET m == p[1] * 12 + p[2] - 1 + k
        y == m \div 12
    IN IF y < 1 \/ y > 9998 THEN AnyX
       ELSE X("DateTime", [s |-> Add(Mul(I(DayNumber(y, (m % 12) + 1, 1) + p[3] - 1), Day), I(3600 * p[4] + 60 * p[5] + p[6])), ns |-> p[7]]))
DateAddOn(d, i, u) ==
    CASE u \in {"YEAR", "MONTH"} -> IF Lt(I(200000), Abs(i)) THEN AnyX ELSE AddMonths(d, ToInt(i) * (IF u = "YEAR" THEN 12 ELSE 1))
      [] u = "MILLISECOND" -> IF ~Fits(i, 60) THEN AnyX
                              ELSE With(Add(Mul(i, I(1000000)), I(d.ns)), LAMBDA n :
                                   OutYears([s |-> Add(d.s, FloorDiv(n, I(1000000000))), ns |-> ToInt(Mod(n, I(1000000000)))]))
      [] OTHER -> IF ~Fits(i, 40) THEN AnyX ELSE OutYears([d EXCEPT !.s = Add(@, Mul(i, I(Seconds[u])))])
DateAddFn(a) ==
    IF ~DateOk(a[1]) \/ ~IsIntegerT(a[2].t) \/ a[3].t # "String" \/ a[2].n \/ a[3].n THEN Err
    ELSE IF a[1].n THEN a[1]
    ELSE LET u == IntervalOf(a[3].v) IN
         IF u = "error" THEN Err ELSE With(Conv(a[1], "DateTime"), LAMBDA d : IF ~Firm(d) THEN Soft(d) ELSE DateAddOn(d.v, IntOf(a[2]), u))
Nanos(d) == Add(Mul(d.s, I(1000000000)), I(d.ns))
DateDiffOn(x, y, u) ==
    With(IF u \in {"YEAR", "MONTH"}
         THEN LET p == Fields(x)
                  q == Fields(y)
              IN I(IF u = "YEAR" THEN q[1] - p[1] ELSE (q[1] - p[1]) * 12 + q[2] - p[2])
         ELSE Quo(Sub(Nanos(y), Nanos(x)), IF u = "MILLISECOND" THEN I(1000000) ELSE Mul(I(1000000000), I(Seconds[u]))),
         LAMBDA k : IF Fits(k, 32) THEN I32(k) ELSE Err)
DateDiffFn(a) ==
    IF ~DateOk(a[1]) \/ ~DateOk(a[2]) \/ a[3].t # "String" \/ a[3].n THEN Err
    ELSE IF a[1].n \/ a[2].n THEN NullX("Int32")
    ELSE LET u == IntervalOf(a[3].v) IN
         IF u = "error" THEN Err ELSE Lift(a[1], a[2], "DateTime", LAMBDA x, y : DateDiffOn(x, y, u))
DatePartOn(d, u) ==
    With(Fields(d), LAMBDA p :
    LET n == DayNumber(p[1], p[2], p[3])        \* day 0 is a Monday
        thursday == n - (n % 7) + 3
    IN CASE u = "YEAR" -> I(p[1]) [] u = "MONTH" -> I(p[2]) [] u = "DAY" -> I(p[3])
         [] u = "DAYOFYEAR" -> I(n - DayNumber(p[1], 1, 1) + 1)
         [] u = "WEEKDAY" -> I(((n + 1) % 7) + 1)
         [] u = "WEEK" -> IF thursday > MaxDay THEN I(52) ELSE With(DateOf(thursday), LAMBDA q : I((thursday - DayNumber(q[1], 1, 1)) \div 7 + 1))
         [] u = "HOUR" -> I(p[4]) [] u = "MINUTE" -> I(p[5]) [] u = "SECOND" -> I(p[6])
         [] u = "MILLISECOND" -> I(p[7] \div 1000000))
DatePartFn(a) ==
    IF ~DateOk(a[1]) \/ a[2].t # "String" \/ a[2].n THEN Err
    ELSE IF a[1].n THEN NullX("Int32")
    ELSE LET u == IntervalOf(a[2].v) IN
         IF u = "error" THEN Err ELSE With(Conv(a[1], "DateTime"), LAMBDA d : IF ~Firm(d) THEN Soft(d) ELSE I32(DatePartOn(d.v, u)))

Fn(f, a) ==
    IF \E i \in DOMAIN a : ~Firm(a[i])
    THEN (IF \E i \in DOMAIN a : a[i].t = "error" THEN Err ELSE AnyX)
    ELSE CASE f \in {"ABS", "CEILING", "FLOOR", "ROUND", "SQRT"} -> Rounding(f, a[1])
           [] f = "CONVERT" -> ConvertFn(a[1], a[2])
           [] f \in {"CONTAINS", "STARTSWITH", "ENDSWITH"} -> Tests(f, a)
           [] f \in {"INDEXOF", "LASTINDEXOF", "NTHINDEXOF"} -> Indexes(f, a)
           [] f = "REPLACE" -> ReplaceFn(a)
           [] f = "SPLIT" -> SplitFn(a)
           [] f = "STRCOUNT" -> CountFn(a)
           [] f = "STRCMP" -> StrCmpFn(a)
           [] f = "SUBSTR" -> SubStrFn(a)
           [] f \in {"TRIM", "TRIMLEFT", "TRIMRIGHT", "UPPER", "LOWER", "REVERSE", "LEN"} ->
                IF a[1].t # "String" THEN Err ELSE IF a[1].n THEN NullX(IF f = "LEN" THEN "Int32" ELSE "String") ELSE TextFn(f, a[1].v)
           [] f \in {"REGEXMATCH", "REGEXVAL"} -> RegexFn(f, a)
           [] f = "ISNULL" -> IF a[2].n THEN Err ELSE IF a[1].n THEN a[2] ELSE a[1]
           [] f \in {"ISDATE", "ISINTEGER", "ISGUID", "ISNUMERIC"} -> IsFn(f, a[1])
           [] f = "POWER" -> PowerFn(a[1], a[2])
           [] f = "DATEADD" -> DateAddFn(a)
           [] f = "DATEDIFF" -> DateDiffFn(a)
           [] f = "DATEPART" -> DatePartFn(a)
           [] f \in {"NOW", "UTCNOW"} -> X("now", FALSE)

-----------------------------------------------------------------------------
(* Syntax.  A token is [k, s, o]: k the kind, s the text of a literal or     *)
(* column, o the operator, keyword or function name in upper case.           *)
\* Binding strength as documented with the grammar ...
DocLevel == [OR |-> 1, AND |-> 2] @@ [o \in {"IN", "IS", "LIKE"} |-> 3] @@
            [o \in {"=", "==", "===", "!=", "!==", "<>"} |-> 4] @@ [o \in {"<", "<=", ">", ">="} |-> 5] @@
            [o \in {"<<", ">>", "&", "|", "^"} |-> 6] @@ [o \in {"+", "-"} |-> 7] @@ [o \in {"*", "/", "%"} |-> 8]
\* ... and as the rules of the grammar have it.
FlatLevel == [OR |-> 1, AND |-> 1, IS |-> 5, LIKE |-> 3] @@ [o \in {"IN"} |-> 6] @@
             [o \in {"=", "==", "===", "!=", "!==", "<>", "<", "<=", ">", ">="} |-> 4] @@
             [o \in {"<<", ">>", "&", "|", "^"} |-> 7] @@ [o \in {"+", "-", "*", "/", "%"} |-> 8]
LOCAL BadParse == [a |-> [k |-> "bad"], i |-> 0]
LOCAL IsOp(ts, i, o) == i <= Len(ts) /\ ts[i].k = "op" /\ ts[i].o = o
LOCAL IsKind(ts, i, k) == i <= Len(ts) /\ ts[i].k = k
RECURSIVE Climb(_, _, _, _), Prefix(_, _, _, _), More(_, _, _, _, _, _), ArgList(_, _, _, _)
\* An expression at i whose operators bind at least as strongly as min: [a, i].
Climb(ts, i, min, lv) == With(Prefix(ts, i, min, lv), LAMBDA l :
                              IF l.a.k = "bad" THEN l
                              ELSE More(ts, l.a, l.i, min, IF min <= 3 /\ (IsOp(ts, i, "NOT") \/ IsOp(ts, i, "!")) THEN 2 ELSE 9, lv))
Prefix(ts, i, min, lv) ==
    IF i > Len(ts) THEN BadParse
    ELSE LET tk == ts[i] IN
    CASE tk.k \in {"int", "num", "str", "guid", "date", "bool"} -> [a |-> [k |-> "lit", w |-> tk.k, s |-> tk.s], i |-> i + 1]
      [] tk.k = "null" -> [a |-> [k |-> "null"], i |-> i + 1]
      [] tk.k = "col" -> [a |-> [k |-> "col", s |-> tk.s], i |-> i + 1]
      [] tk.k = "(" -> With(Climb(ts, i + 1, 1, lv), LAMBDA r : IF r.a.k = "bad" \/ ~IsKind(ts, r.i, ")") THEN BadParse ELSE [r EXCEPT !.i = @ + 1])
      [] tk.k = "fn" -> IF ~IsKind(ts, i + 1, "(") THEN BadParse
                        ELSE IF IsKind(ts, i + 2, ")") THEN [a |-> [k |-> "fn", f |-> tk.o, q |-> <<>>], i |-> i + 3]
                        ELSE With(ArgList(ts, i + 2, <<>>, lv), LAMBDA r : IF r.i = 0 THEN BadParse ELSE [a |-> [k |-> "fn", f |-> tk.o, q |-> r.q], i |-> r.i])
      [] tk.k = "op" /\ tk.o \in {"NOT", "!"} /\ min <= 3 ->
            With(Climb(ts, i + 1, 3, lv), LAMBDA r : IF r.a.k = "bad" THEN BadParse ELSE [a |-> [k |-> "un", o |-> "NOT", x |-> r.a], i |-> r.i])
      [] tk.k = "op" /\ tk.o \in {"NOT", "!", "~", "+", "-"} ->
            With(Prefix(ts, i + 1, 9, lv), LAMBDA r : IF r.a.k = "bad" THEN BadParse
                                                      ELSE [a |-> [k |-> "un", o |-> IF tk.o \in {"!", "~"} THEN "NOT" ELSE tk.o, x |-> r.a], i |-> r.i])
      [] OTHER -> BadParse
\* Operators after the operand l: each binds at least as strongly as min and no more strongly than cap.
More(ts, l, i, min, cap, lv) ==
    LET done == [a |-> l, i |-> i]
        ok(o) == lv[o] >= min /\ lv[o] <= cap
        j == IF IsOp(ts, i, "NOT") \/ IsOp(ts, i, "!") THEN i + 1 ELSE i
        neg == j # i
        m(k) == IF IsOp(ts, k, "BINARY") \/ IsOp(ts, k, "===") THEN k + 1 ELSE k
    IN IF ~IsKind(ts, i, "op") THEN done
       ELSE IF IsOp(ts, i, "IS")
       THEN IF ~ok("IS") THEN done
            ELSE LET k == IF IsOp(ts, i + 1, "NOT") \/ IsOp(ts, i + 1, "!") THEN i + 2 ELSE i + 1 IN
                 IF ~IsKind(ts, k, "null") THEN BadParse
                 ELSE More(ts, [k |-> "isnull", neg |-> k = i + 2, x |-> l], k + 1, min, lv["IS"], lv)
       ELSE IF IsOp(ts, j, "IN")
       THEN IF ~ok("IN") THEN done
            ELSE LET k == m(j + 1) IN
                 IF ~IsKind(ts, k, "(") THEN BadParse
                 ELSE With(ArgList(ts, k + 1, <<>>, lv), LAMBDA r :
                      IF r.i = 0 THEN BadParse
                      ELSE More(ts, [k |-> "in", neg |-> neg, exact |-> k # j + 1, x |-> l, q |-> r.q], r.i, min, lv["IN"], lv))
       ELSE IF IsOp(ts, j, "LIKE")
       THEN IF ~ok("LIKE") THEN done
            ELSE LET k == m(j + 1) IN
                 With(Climb(ts, k, lv["LIKE"] + 1, lv), LAMBDA r :
                 IF r.a.k = "bad" THEN BadParse
                 ELSE More(ts, [k |-> "like", neg |-> neg, exact |-> k # j + 1, x |-> l, y |-> r.a], r.i, min, lv["LIKE"], lv))
       ELSE IF neg \/ ts[i].o \notin DOMAIN lv THEN done
       ELSE IF ~ok(ts[i].o) THEN done
       ELSE With(Climb(ts, i + 1, lv[ts[i].o] + 1, lv), LAMBDA r :
            IF r.a.k = "bad" THEN BadParse
            ELSE More(ts, [k |-> "bin", o |-> ts[i].o, x |-> l, y |-> r.a], r.i, min, lv[ts[i].o], lv))
\* Arguments up to and including the closing parenthesis: [q, i], i = 0 if there is none.
ArgList(ts, i, q, lv) ==
    With(Climb(ts, i, 1, lv), LAMBDA r :
    IF r.a.k = "bad" THEN [q |-> <<>>, i |-> 0]
    ELSE IF IsKind(ts, r.i, ",") THEN ArgList(ts, r.i + 1, Append(q, r.a), lv)
    ELSE IF IsKind(ts, r.i, ")") THEN [q |-> Append(q, r.a), i |-> r.i + 1]
    ELSE [q |-> <<>>, i |-> 0])
Parse(ts, lv) == With(Climb(ts, 1, 1, lv), LAMBDA r : IF r.a.k # "bad" /\ r.i = Len(ts) + 1 THEN r.a ELSE [k |-> "bad"])

-----------------------------------------------------------------------------
(* Evaluation.                                                               *)
RECURSIVE EvalAs(_, _, _)
LOCAL NextOf(f, w, b) == \* MaxOf, MinOf: the better of w and b
    IF ~Firm(w) \/ ~Firm(b) THEN Both(w, b)
    ELSE With(CompareAs(CmpType(w.t, b.t), IF f = "MAXOF" THEN ">" ELSE "<", b, w), LAMBDA c :
         IF ~Firm(c) THEN Soft(c) ELSE IF (~c.n /\ c.v) \/ (w.n /\ ~b.n) THEN b ELSE w)
RECURSIVE InList(_, _, _, _, _)
InList(x, q, i, o, row) ==
    IF i > Len(q) THEN Bool(FALSE)
    ELSE With(EvalAs(q[i], row, "Boolean"), LAMBDA y :
         IF ~Firm(y) THEN Soft(y)
         ELSE With(Compare(o, x, y), LAMBDA c : IF ~Firm(c) THEN Soft(c) ELSE IF ~c.n /\ c.v THEN c ELSE InList(x, q, i + 1, o, row)))
RECURSIVE FirstSet(_, _, _, _)
FirstSet(q, i, w, row) == \* Coalesce
    IF i > Len(q) THEN w
    ELSE With(EvalAs(q[i], row, "Boolean"), LAMBDA y :
         IF ~Firm(y) THEN y ELSE IF ~y.n THEN y ELSE FirstSet(q, i + 1, IF i = 1 THEN y ELSE w, row))
EvalFn(f, q, row) ==
    CASE f \notin DOMAIN Sig /\ f \notin LazyFns -> Err
      [] f = "COALESCE" -> IF Len(q) < 2 THEN Err ELSE FirstSet(q, 1, AnyX, row)
      [] f = "IIF" -> IF Len(q) # 3 THEN Err
                      ELSE With(EvalAs(q[1], row, "Boolean"), LAMBDA c :
                           IF ~Firm(c) THEN Soft(c)
                           ELSE IF c.t # "Boolean" THEN Err
                           ELSE IF ~c.n /\ c.v THEN EvalAs(q[2], row, "Boolean") ELSE EvalAs(q[3], row, "Boolean"))
      [] f \in {"MAXOF", "MINOF"} -> IF Len(q) < 2 THEN Err
                                     ELSE FoldLeft(LAMBDA w, e : NextOf(f, w, EvalAs(e, row, "Boolean")), EvalAs(q[1], row, "Boolean"), Tail(q))
      [] OTHER -> IF Len(q) < Sig[f][1] \/ Len(q) > Sig[f][2] THEN Err
                  ELSE With([i \in DOMAIN q |-> EvalAs(q[i], row, Sig[f][3][i])], LAMBDA a : Fn(f, a))
\* The value of e on a row; a bare NULL has the type nt.
EvalAs(e, row, nt) ==
    CASE e.k = "null" -> NullX(nt)
      [] e.k = "lit" -> Lit(e.w, e.s)
      [] e.k = "col" -> Column(row, e.s)
      [] e.k = "un" -> Unary(e.o, EvalAs(e.x, row, "Boolean"))
      [] e.k = "bin" -> With(EvalAs(e.x, row, "Boolean"), LAMBDA x : With(EvalAs(e.y, row, "Boolean"), LAMBDA y : Binary(e.o, x, y)))
      [] e.k = "isnull" -> With(EvalAs(e.x, row, "Boolean"), LAMBDA x : IF x.t \in {"error", "any"} THEN Soft(x) ELSE Bool(x.n # e.neg))
      [] e.k = "like" -> With(EvalAs(e.x, row, "Boolean"), LAMBDA x : With(EvalAs(e.y, row, "Boolean"), LAMBDA y :
                              IF ~Firm(x) \/ ~Firm(y) THEN Both(x, y)
                              ELSE With(Like(x, y, e.exact), LAMBDA r : IF e.neg THEN NotB(r) ELSE r)))
      [] e.k = "in" -> With(EvalAs(e.x, row, "Boolean"), LAMBDA x :
                            IF ~Firm(x) THEN Soft(x)
                            ELSE IF x.n THEN NullX("Boolean")
                            ELSE With(InList(x, e.q, 1, IF e.exact THEN "===" ELSE "=", row), LAMBDA r : IF e.neg THEN NotB(r) ELSE r))
      [] e.k = "fn" -> EvalFn(e.f, e.q, row)
      [] e.k = "bad" -> Err
Value(e, row) == EvalAs(e, row, "Undefined")

-----------------------------------------------------------------------------
(* Does an observed result agree with an expected one?                       *)
LOCAL Close(d, w) == \* d within 2^-46 of w.p, or of 1 / w.p
    LET Ex(x, y) == [k |-> "num", n |-> x.n # y.n, m |-> MMul(x.m, y.m), e |-> x.e + y.e]
        one == OfInt(I(1))
        left == IF w.inv THEN Ex(d, w.p) ELSE d
        right == IF w.inv THEN one ELSE w.p
        eps(s) == [k |-> "num", n |-> FALSE, m |-> IF s THEN MAdd(P2[46].m, <<1>>) ELSE MSub(P2[46].m, <<1>>), e |-> -46]
    IN /\ left.n = right.n
       /\ FCmp(FAbs(left), Ex(FAbs(right), eps(FALSE))) >= 0
       /\ FCmp(FAbs(left), Ex(FAbs(right), eps(TRUE))) <= 0
LOCAL MagBits(d) == 14 * Len(d.m) + d.e
Agrees(x, o) ==
    CASE x.t = "any" -> o.t # "panic"
      [] x.t = "error" -> o.t = "error"
      [] o.t \in {"error", "panic"} -> FALSE
      [] x.t = "sqrt" -> o.t = "Double" /\ ~o.n /\ o.v.k = "num" /\ IsSqrt(o.v, x.v)
      [] x.t = "near" -> \/ MagBits(x.v.p) > 980 \/ MagBits(x.v.p) < -900
                         \/ o.t = "Double" /\ ~o.n /\ o.v.k = "num" /\ Close(o.v, x.v)
      [] x.t = "now" -> o.t = "DateTime" /\ ~o.n
      [] OTHER -> /\ x.t = o.t \/ (x.t = "Undefined" /\ x.n)
                  /\ x.n = o.n
                  /\ x.n \/ x.v = o.v
=============================================================================
