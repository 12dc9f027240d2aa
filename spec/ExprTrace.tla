----------------------------- MODULE ExprTrace ------------------------------
(* Judges recorded evaluations: tokens, the row, and the result.             *)
EXTENDS Expr, CaseIO

Observed(o) == IF o.t \in {"error", "panic"} THEN X(o.t, FALSE)
               ELSE IF o.null THEN NullX(o.t)
               ELSE IF o.v.t = "far" THEN X("DateTime", [s |-> Int0, ns |-> -1])     \* beyond the years 1 to 9999
               ELSE X(o.t, Seen(o.v).v)
\* A value is read as its own type only.
Read(o) == o.t \in {"error", "panic"} \/ (~o.null /\ o.v.t = "far")
           \/ (IF o.t = "Undefined" THEN o.as = <<>> ELSE o.as = <<o.t>> /\ o.av.t = o.t /\ (o.null \/ o.av = o.v))
\* Now and UtcNow lie between the instants before and after.
Timely(c, x, o) == x.t # "now" \/ (o.t = "DateTime" /\ ~o.n /\ Le(Of(c.t0), Nanos(o.v)) /\ Le(Nanos(o.v), Of(c.t1)))
RowOf(c) == [i \in DOMAIN c.row |-> [n |-> c.row[i].n, v |-> Cell(c.row[i].t, c.row[i].v)]]
Expect(c, row, lv) == Value(Parse(c.toks, lv), row)
Fine(c, x, o) == Agrees(x, o) /\ Timely(c, x, o)

\* <<verdict, known, reason>>
Verdict(c) ==
    With(Observed(c.out), LAMBDA o :
    With(RowOf(c), LAMBDA row :
    With(Expect(c, row, DocLevel), LAMBDA x :
    IF ~Read(c.out) THEN <<FALSE, FALSE, <<"read", c.out>>>>
    ELSE IF Fine(c, x, o) THEN <<TRUE, FALSE, <<>>>>
    ELSE IF IsKnown("KF-C15-1") /\ o.t # "panic" /\ Parse(c.toks, FlatLevel) # Parse(c.toks, DocLevel) /\ Fine(c, Expect(c, row, FlatLevel), o)
    THEN <<TRUE, TRUE, <<>>>>
    ELSE <<FALSE, FALSE, <<"expected", x, "observed", o>>>>)))

TInit == CaseInit
TNext == /\ Cur <= NumCases
         /\ \E w \in {Verdict(Cases[Cur])} : JudgeK(w[1], w[3], w[2], "KF-C15-1")
=============================================================================
