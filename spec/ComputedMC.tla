----------------------------- MODULE ComputedMC -----------------------------
(* Every sample value in every type of column, and every way three computed  *)
(* columns can refer to each other.                                          *)
EXTENDS Computed

VARIABLE q
Ints == <<Int0, I(1), I(-1), I(127), I(128), I(-129), I(255), I(256), I(65535), I(65536), I(-32769), Sub(P2[31], I(1)), P2[31], Neg(P2[31]), Sub(P2[32], I(1)), P2[32],
          Sub(P2[63], I(1)), Neg(P2[63]), P2[53], Add(P2[53], I(1)), Add(P2[24], I(1))>>
Texts == <<T(""), T("0"), T("1"), T("-1"), T("127"), T("128"), T("256"), T("-129"), T("2.5"), T("abc"), T("true"), T("F"), T("1e3"), T("2020-02-29"), T("2020-02-30"), T("18446744073709551615"),
           T("18446744073709551616"), T("{12345678-9abc-def0-1234-56789abcdef0}")>>
Decs == <<[c |-> Int0, x |-> 0], [c |-> I(25), x |-> -1], [c |-> I(-25), x |-> -1], [c |-> I(3), x |-> 5], [c |-> I(1), x |-> -9], [c |-> I(-1), x |-> 18]>>
Dbls == <<Zero(FALSE), Zero(TRUE), NaN, Inf(FALSE), Inf(TRUE), OfRatio(FALSE, <<5>>, <<2>>), OfRatio(TRUE, <<5>>, <<2>>), OfInt(P2[53]), OfRatio(FALSE, <<1>>, <<3>>), OfInt(Pow(I(10), 12))>>
Sample == [i \in DOMAIN Ints |-> IF Fits(Ints[i], 32) THEN I32(Ints[i]) ELSE X("Int64", Ints[i])] \o [i \in DOMAIN Texts |-> Str(Texts[i])]
          \o [i \in DOMAIN Decs |-> X("Decimal", Decs[i])] \o [i \in DOMAIN Dbls |-> X("Double", Dbls[i])]
          \o <<Bool(TRUE), Bool(FALSE), NullX("Int32"), Err, AnyX, X("Guid", [i \in 1 .. 16 |-> i]), X("DateTime", ZeroTime),
               X("DateTime", [s |-> Mul(I(UnixEpochDay), Day), ns |-> 0]), X("DateTime", Instant(<<2024, 2, 29, 23, 59, 59, 120000000>>, 0))>>
Types == <<"String", "Boolean", "DateTime", "Single", "Double", "Decimal", "Guid", "Int8", "Int16", "Int32", "Int64", "UInt8", "UInt16", "UInt32", "UInt64">>

Name(i) == <<67, 48 + i>>
Lit7 == <<[k |-> "int", s |-> T("7"), o |-> ""]>>
Col(i) == [k |-> "col", s |-> Name(i), o |-> ""]
Sum(i, j) == <<Col(i), [k |-> "op", s |-> <<>>, o |-> "+"], Col(j)>>
\* 0: no reference; 1 .. 3: one; 12 ..: two
Def(d) == IF d = 0 THEN Lit7 ELSE IF d < 10 THEN <<Col(d)>> ELSE Sum(d \div 10, d % 10)
Defs == {0, 1, 2, 3, 12, 13, 23}
Graph(g) == [i \in 1 .. 3 |-> [n |-> Name(i), t |-> "Int32", toks |-> Def(g[i])]]
Edges(g) == {<<i, j>> \in (1 .. 3) \X (1 .. 3) : g[i] = j \/ (g[i] > 9 /\ (g[i] \div 10 = j \/ g[i] % 10 = j))}
Step(e) == e \cup {<<a, c>> \in (1 .. 3) \X (1 .. 3) : \E b \in 1 .. 3 : <<a, b>> \in e /\ <<b, c>> \in e}
Closed(e) == Step(Step(e))

Init == q = <<"start">>
Next == /\ q[1] = "start"
        /\ \/ \E i \in DOMAIN Sample : \E t \in DOMAIN Types : q' = <<"conv", i, t>>
           \/ \E g \in [1 .. 3 -> Defs] : q' = <<"graph", g>>
Conv1 == InColumn(Sample[q[2]], Types[q[3]])
\* A value in a column is one of the column's type.
Typed == q[1] = "conv" => LET t == Types[q[3]] IN
         With(Conv1, LAMBDA x : /\ Firm(x) => x.t = t
                                /\ Firm(x) /\ ~x.n /\ IsInt(t) => InType(t, x.v))
\* No value becomes a value, and none is lost.
Nulls == q[1] = "conv" => LET a == Sample[q[2]] IN With(Conv1, LAMBDA x : Firm(a) /\ Firm(x) => x.n = a.n)
\* A column of the value's own type holds the value.
Own == q[1] = "conv" => LET a == Sample[q[2]] IN Firm(a) /\ ~a.n /\ a.t = Types[q[3]] => Conv1 = a
\* Reading a value as an operand and storing it again changes nothing.
Again == q[1] = "conv" => LET t == Types[q[3]] IN
         With(Conv1, LAMBDA x : Firm(x) /\ ~x.n /\ ~(t = "UInt64" /\ ~Fits(x.v, 64)) => InColumn(Operand(t, x), t) = x)
\* Zero, and only zero, is false.
Truth == q[1] = "conv" => LET a == Sample[q[2]] IN
         Firm(a) /\ ~a.n /\ a.t \in {"Int32", "Int64", "DateTime", "Decimal"} /\ Types[q[3]] = "Boolean"
         => Conv1 = Bool(~IsZero(IF a.t = "DateTime" THEN Unix(a.v) ELSE IF a.t = "Decimal" THEN a.v.c ELSE a.v))
\* Only columns that lead back to a column have no value; the others add up.
RECURSIVE Total(_, _)
Total(g, i) == IF g[i] = 0 THEN 7 ELSE IF g[i] < 10 THEN Total(g, g[i]) ELSE Total(g, g[i] \div 10) + Total(g, g[i] % 10)
Graphs == q[1] = "graph" => LET g == q[2]  e == Closed(Edges(g)) IN
          \A i \in 1 .. 3 : LET loop == <<i, i>> \in e \/ \E j \in 1 .. 3 : <<i, j>> \in e /\ <<j, j>> \in e IN
              /\ Circular(Graph(g), i, {}) = loop
              /\ Computed(Graph(g), i, <<>>, {}, DocLevel) = (IF loop THEN Err ELSE I32(I(Total(g, i))))
=============================================================================
