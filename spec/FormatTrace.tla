---------------------------- MODULE FormatTrace -----------------------------
(* Judges number texts recorded from the implementation.                     *)
EXTENDS Format, CaseIO

Dbl(d) == IF d.k = "num" THEN [k |-> "num", n |-> d.n, m |-> Of(d.m).m, e |-> d.e] ELSE IF d.k = "inf" THEN Inf(d.n) ELSE NaN
IntWhy(c) == With(Of(c.x), LAMBDA a : IF c.out = IntText(a, c.sep) /\ c.def = IntText(a, 44) THEN <<>> ELSE <<"text", c.out, c.def, "expected", IntText(a, c.sep)>>)
\* shortest form: sign, grouped digits, point and fraction
Shortest(d, out, point, sep) ==
    LET body == IF d.n THEN Tail(out) ELSE out
        at == {i \in DOMAIN body : body[i] = point}
        int0 == IF at = {} THEN body ELSE SubSeq(body, 1, (CHOOSE i \in at : \A j \in at : j <= i) - 1)
        frac == IF at = {} THEN <<>> ELSE SubSeq(body, (CHOOSE i \in at : \A j \in at : j <= i) + 1, Len(body))
        int == Ungroup(int0, sep)
    IN /\ out # <<>>
       /\ d.n => out[1] = 45
       /\ \A c \in Range(int \o frac) : c >= 48 /\ c <= 57
       /\ int # <<>> /\ Group(int, sep) = int0
       /\ IsShortest(d, int, frac)
FloatWhy(c) ==
    With(Dbl(c.d), LAMBDA d :
    IF d.k # "num" THEN (IF c.out = Special(d) THEN <<>> ELSE <<"text", c.out, "expected", Special(d)>>)
    ELSE IF c.prec < 0 THEN (IF Shortest(d, c.out, c.point, c.sep) THEN <<>> ELSE <<"not the shortest text", c.out>>)
    ELSE With(FixedText(d, c.prec, c.point, c.sep), LAMBDA t : IF c.out = t THEN <<>> ELSE <<"text", c.out, "expected", t>>))
Why(c) == IF c.panic # "" THEN <<"panic", c.panic>> ELSE IF c.k = "int" THEN IntWhy(c) ELSE FloatWhy(c)
TInit == CaseInit
TNext == Cur <= NumCases /\ \E w \in {Why(Cases[Cur])} : Judge(w = <<>>, w)
=============================================================================
