------------------------------- MODULE Value --------------------------------
(* Typed field values: [t |-> type, v |-> ...] with v                        *)
(*   String: bytes; Boolean: TRUE/FALSE; integers: an integer of Big.tla;    *)
(*   Single, Double: Float.tla; Decimal: [c |-> integer, x |-> exponent] in  *)
(*   lowest terms; Guid: 16 bytes; DateTime: [s |-> seconds since            *)
(*   0001-01-01 UTC (Big), ns]; null: zero.                                  *)
(* Lexical forms are those of XML Schema.                                    *)
EXTENDS Float, Ticks, Guid

Null == [t |-> "null", v |-> Int0]
V(t, v) == [t |-> t, v |-> v]
Signed == [Int8 |-> 8, Int16 |-> 16, Int32 |-> 32, Int64 |-> 64]
Unsigned == [UInt8 |-> 8, UInt16 |-> 16, UInt32 |-> 32, UInt64 |-> 64]
IsInt(t) == t \in DOMAIN Signed \/ t \in DOMAIN Unsigned
InType(t, a) == IF t \in DOMAIN Signed THEN Fits(a, Signed[t]) ELSE ~a.n /\ Lt(a, P2[Unsigned[t]])

\* Decimals in lowest terms.
RECURSIVE DecNorm(_, _)
DecNorm(c, x) == IF IsZero(c) THEN [c |-> Int0, x |-> 0]
                 ELSE IF c.m[1] % 10 = 0 THEN DecNorm(Quo(c, I(10)), x + 1) ELSE [c |-> c, x |-> x]
\* An instant from the fields of a date and time in a zone off seconds ahead of UTC.
Instant(p, off) == [s |-> Add(Mul(I(DayNumber(p[1], p[2], p[3])), I(86400)), I(3600 * p[4] + 60 * p[5] + p[6] - off)), ns |-> p[7]]

\* A value as the driver records it.
DblOf(d) == IF d.k = "num" THEN [k |-> "num", n |-> d.n, m |-> Of(d.m).m, e |-> d.e] ELSE IF d.k = "inf" THEN Inf(d.n) ELSE NaN
Seen(o) ==
    CASE o.t = "null" -> Null
      [] o.t = "String" -> V("String", o.s)
      [] o.t = "Boolean" -> V("Boolean", o.b)
      [] o.t \in {"Single", "Double"} -> V(o.t, DblOf(o.d))
      [] o.t = "Decimal" -> V("Decimal", DecNorm(Of(o.c), o.x))
      [] o.t = "Guid" -> V("Guid", o.g)
      [] o.t = "DateTime" -> V("DateTime", Instant(o.p, 0))
      [] o.t = "error" -> V("error", FALSE)
      [] IsInt(o.t) -> V(o.t, Of(o.i))
      [] OTHER -> V("unknown", FALSE)
Same(a, b) == a.t = b.t /\ a.v = b.v

-----------------------------------------------------------------------------
(* Lexical forms.                                                            *)
LOCAL SplitAt(t, c) == LET k == Find(t, <<c>>, 1) IN IF k = 0 THEN <<t, <<>>>> ELSE <<SubSeq(t, 1, k - 1), SubSeq(t, k + 1, Len(t))>>
\* sign, digits, optional fraction, optional exponent -> [n, c (magnitude), x]
Number(t0) ==
    LET t == Lower(t0)
        neg == t # <<>> /\ t[1] = 45
        body == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
        me == SplitAt(body, 101)
        ip == SplitAt(me[1], 46)
        x0 == IF me[2] = <<>> THEN 0 ELSE ToInt(Of(me[2]))
    IN [n |-> neg, c |-> Of(ip[1] \o ip[2]).m, x |-> x0 - Len(ip[2])]
LexDouble(t) == LET u == Lower(t) IN
    IF u \in {T("inf"), T("+inf")} THEN Inf(FALSE) ELSE IF u = T("-inf") THEN Inf(TRUE) ELSE IF u = T("nan") THEN NaN
    ELSE With(Number(t), LAMBDA q : IF q.x >= 0 THEN OfRatio(q.n, MMul(q.c, Ten(q.x)), <<1>>) ELSE OfRatio(q.n, q.c, Ten(-q.x)))
LexSingle(t) == LET u == Lower(t) IN
    IF u \in {T("inf"), T("+inf")} THEN Inf(FALSE) ELSE IF u = T("-inf") THEN Inf(TRUE) ELSE IF u = T("nan") THEN NaN
    ELSE With(Number(t), LAMBDA q : IF q.x >= 0 THEN OfRatio32(q.n, MMul(q.c, Ten(q.x)), <<1>>) ELSE OfRatio32(q.n, q.c, Ten(-q.x)))
LexDecimal(t) == With(Number(t), LAMBDA q : DecNorm(Mk(q.n, q.c), q.x))
LOCAL N2(t, i) == ToInt(Of(SubSeq(t, i, i + 1)))
\* yyyy-mm-ddThh:mm:ss[.f...][Z|+hh:mm|-hh:mm]
LexDateTime(t) ==
    LET rest == SubSeq(t, 20, Len(t))
        frac == IF rest # <<>> /\ rest[1] = 46
                THEN SubSeq(rest, 2, CHOOSE i \in 1 .. Len(rest) : (\A j \in 2 .. i : IsDigit(rest[j])) /\ (i = Len(rest) \/ ~IsDigit(rest[i + 1])))
                ELSE <<>>
        zone == IF frac = <<>> THEN rest ELSE SubSeq(rest, Len(frac) + 2, Len(rest))
        off == IF zone = <<>> \/ zone = <<90>> THEN 0
               ELSE (IF zone[1] = 45 THEN -1 ELSE 1) * (3600 * N2(zone, 2) + 60 * N2(zone, 5))
        ns == ToInt(Of(frac \o [i \in 1 .. 9 - Len(frac) |-> 48]))
    IN Instant(<<ToInt(Of(SubSeq(t, 1, 4))), N2(t, 6), N2(t, 9), N2(t, 12), N2(t, 15), N2(t, 18), ns>>, off)
\* The value of type t that a text of an XML document means.
Lex(t, s0) ==
    LET s == IF t = "String" THEN s0 ELSE Trim(s0) IN
    CASE t = "String" -> V(t, s)
      [] t = "Boolean" -> V(t, s = T("true") \/ s = T("1"))
      [] t = "Single" -> V(t, LexSingle(s))
      [] t = "Double" -> V(t, LexDouble(s))
      [] t = "Decimal" -> V(t, LexDecimal(s))
      [] t = "Guid" -> V(t, ParseOf(s)[1])
      [] t = "DateTime" -> V(t, LexDateTime(s))
      [] OTHER -> V(t, Of(s))
=============================================================================
