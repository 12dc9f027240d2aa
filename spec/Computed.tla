------------------------------ MODULE Computed ------------------------------
(* Computed columns: a column of a table may be defined by an expression on  *)
(* the other columns, computed ones among them.  Its value on a row is the   *)
(* value of the expression on that row, converted to the column's type.      *)
EXTENDS Expr

\* Integer types keep the low bits of an integer.
LOCAL Low(t, i) == IF t \in DOMAIN Signed THEN Wrap(i, Signed[t])
                   ELSE Mod(i, P2[Unsigned[t]])
LOCAL FromInteger(i, t) ==
    CASE t = "String" -> Str(Dec(i))
      [] t = "Boolean" -> Bool(~IsZero(i))
      [] t = "Single" -> X(t, RoundTo32(i.n, i.m, 0, FALSE))
      [] t = "Double" -> X(t, OfInt(i))
      [] t = "Decimal" -> X(t, DecNorm(i, 0))
      [] IsInt(t) -> X(t, Low(t, i))
      [] OTHER -> Err
LOCAL FromDecimal(d, t) ==
    CASE t = "String" -> Str(DecText(d))
      [] t = "Boolean" -> Bool(~IsZero(d.c))
      [] t = "Single" -> X(t, To32(DecDouble(d)))
      [] t = "Double" -> X(t, DecDouble(d))
      [] t = "Decimal" -> X(t, d)
      [] IsInt(t) -> With(DecTrunc(d), LAMBDA i : IF Fits(i, 64) THEN X(t, Low(t, i)) ELSE AnyX)
      [] OTHER -> Err
LOCAL FromDouble(d, t) ==
    CASE t = "String" -> Str(FixedText(d))
      [] t = "Boolean" -> Bool(~IsZeroF(d))
      [] t = "Single" -> X(t, To32(d))
      [] t = "Double" -> X(t, d)
      [] t = "Decimal" -> IF d.k # "num" THEN Err ELSE IF d.m # <<>> /\ (d.e < -200 \/ d.e > 200) THEN AnyX ELSE X(t, Shortest(d))
      [] IsInt(t) -> IF d.k # "num" THEN AnyX ELSE With(ToInteger(d, "trunc"), LAMBDA i : IF InType(t, i) THEN X(t, i) ELSE AnyX)
      [] OTHER -> Err
\* A text is read as a value of the type; one that is not is an error.  Unusual spellings are left open.
LOCAL Falses == {T("0"), T("f"), T("F"), T("FALSE"), T("false"), T("False")}
LOCAL PlainInt(s) == LET b == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s IN Digits(b) /\ (Len(b) = 1 \/ b[1] # 48)
LOCAL FromString(s, t) ==
    CASE t = "String" -> Str(s)
      [] t = "Boolean" -> IF s \in Truths THEN Bool(TRUE) ELSE IF s \in Falses THEN Bool(FALSE) ELSE Err
      [] t \in {"Single", "Double"} ->
             CASE NumShape(s) = "dec" -> X(t, IF t = "Single" THEN To32(DblOfText(s)) ELSE DblOfText(s))
               [] NumShape(s) = "none" -> Err
               [] OTHER -> AnyX
      [] t = "Decimal" -> CASE NumShape(s) = "dec" -> X(t, DecOf(s)) [] NumShape(s) = "none" -> Err [] OTHER -> AnyX
      [] IsInt(t) -> IF PlainInt(s) /\ Len(s) < 30 THEN (IF s[1] = 45 /\ t \in DOMAIN Unsigned THEN Err ELSE IF InType(t, Of(s)) THEN X(t, Of(s)) ELSE Err)
                     ELSE IF ~HasDigit(s) THEN Err
                     ELSE AnyX
      [] t = "Guid" -> With(ParseOf(s), LAMBDA g : IF Lenient(s) \/ (g = <<>> /\ Len(s) \in {32, 36, 38, 45}) THEN AnyX
                                                   ELSE IF g = <<>> THEN Err ELSE X(t, g[1]))
      [] t = "DateTime" -> With(DateShape(s), LAMBDA d : CASE d.t = "DateTime" -> d
                                                           [] d.t = "bad" -> IF HasDigit(s) THEN AnyX ELSE Err
                                                           [] OTHER -> AnyX)
\* The value a of an expression as a value of a column of type t.
InColumn(a, t) ==
    IF ~Firm(a) THEN Soft(a)
    ELSE IF a.n THEN NullX(t)
    ELSE CASE a.t = "Boolean" -> IF t = "String" THEN Str(IF a.v THEN T("true") ELSE T("false")) ELSE FromInteger(IF a.v THEN I(1) ELSE Int0, t)
           [] a.t \in {"Int32", "Int64"} -> FromInteger(a.v, t)
           [] a.t = "Decimal" -> FromDecimal(a.v, t)
           [] a.t = "Double" -> FromDouble(a.v, t)
           [] a.t = "String" -> FromString(a.v, t)
           [] a.t = "Guid" -> CASE t = "String" -> Str(TextOf(a.v)) [] t = "Guid" -> a [] OTHER -> Err
           [] a.t = "DateTime" -> CASE t = "String" -> Str(StampText(a.v)) [] t = "DateTime" -> a [] OTHER -> FromInteger(Unix(a.v), t)

\* The value w of a column of type t, in an expression.
Operand(t, w) == IF ~Firm(w) THEN Soft(w) ELSE CellOf(t, IF w.n THEN Null ELSE V(t, w.v))

\* comps: the computed columns [n |-> name, t |-> type, toks |-> expression]; row: the plain ones.
Refers(ts, c) == \E k \in DOMAIN ts : ts[k].k = "col" /\ UpperU(Named(ts[k].s)) = UpperU(c.n)
\* A column that is defined by itself has no value.
RECURSIVE Computed(_, _, _, _, _)
Computed(comps, i, row, above, lv) ==
    IF i \in above THEN Err
    ELSE LET q == SelectSeq([j \in DOMAIN comps |-> j], LAMBDA j : Refers(comps[i].toks, comps[j]))
             more == [k \in DOMAIN q |-> [n |-> comps[q[k]].n, v |-> Operand(comps[q[k]].t, Computed(comps, q[k], row, above \cup {i}, lv))]]
         IN InColumn(Value(Parse(comps[i].toks, lv), row \o more), comps[i].t)
\* Does column i depend on a column that is defined by itself?
RECURSIVE Circular(_, _, _)
Circular(comps, i, above) == i \in above \/ \E j \in DOMAIN comps : Refers(comps[i].toks, comps[j]) /\ Circular(comps, j, above \cup {i})

\* The text form of a value of a column of type t.
LOCAL Shown(a, t) ==
    CASE t = "String" -> a.v
      [] t = "Boolean" -> IF a.v THEN T("true") ELSE T("false")
      [] t \in {"Single", "Double"} -> FixedText(a.v)
      [] t = "Decimal" -> DecText(a.v)
      [] t = "Guid" -> TextOf(a.v)
      [] t = "DateTime" -> StampText(a.v)
      [] OTHER -> Dec(a.v)
TextForm(a, t) == IF a.t = "error" THEN <<>> ELSE IF a.n THEN T("<NULL>") ELSE Shown(a, t)
=============================================================================
