---------------------------- MODULE SelectTrace -----------------------------
(* Judges recorded selections.                                               *)
EXTENDS Select, CaseIO

TabsOf(c) == [i \in DOMAIN c.tabs |-> [n |-> c.tabs[i].n, c |-> c.tabs[i].c,
                                       r |-> [r \in DOMAIN c.tabs[i].r |-> [k \in DOMAIN c.tabs[i].r[r] |-> Seen(c.tabs[i].r[r][k])]]]]
TopOf(s) == IF s.top = <<>> THEN -1
            ELSE LET v == Of(s.top) IN IF v.n /\ ~IsZero(v) THEN -1 ELSE IF Lt(I(1000000), v) THEN 1000000 ELSE ToInt(v)
StmtOf(s) == CASE s.k = "filter" -> [k |-> "filter", tab |-> s.tab, e |-> Parse(s.toks, DocLevel), ord |-> s.ord, n |-> TopOf(s)]
               [] s.k = "expr" -> [k |-> "expr", e |-> Parse(s.toks, DocLevel)]
               [] OTHER -> [k |-> s.k, s |-> s.s]
QueryOf(c, ds) == [ds |-> ds, prim |-> c.prim, sid |-> c.sid, key |-> c.key, tag |-> c.tag,
                   lim |-> c.lim, sort |-> c.sort, rows |-> c.rows, ids |-> c.ids, strict |-> c.strict]
SelectFine(c, x, o) ==
    CASE o.t = "panic" -> FALSE
      [] x.st = "open" -> TRUE
      [] o.t = "error" -> x.st \in {"error", "may"}
      [] OTHER -> /\ x.st # "error"
                  /\ ("list" \in DOMAIN o => ListAgrees(x, x.rows, o.list))
                  /\ ("set" \in DOMAIN o => SetAgrees(x.rows, o.set))
                  /\ ("idlist" \in DOMAIN o => ListAgrees(x, x.ids, o.idlist))
                  /\ ("idset" \in DOMAIN o => SetAgrees(x.ids, o.idset))
SelectVerdict(c) ==
    With(TabsOf(c), LAMBDA ds :
    With([i \in DOMAIN c.stmts |-> StmtOf(c.stmts[i])], LAMBDA ss :
    With(Selection(QueryOf(c, ds), ss), LAMBDA x :
    IF SelectFine(c, x, c.out) THEN <<TRUE, <<>>>> ELSE <<FALSE, <<"expected", x, "observed", c.out>>>>)))
\* Rows for which a predicate holds, up to a limit.
WhereVerdict(c) ==
    LET want == FirstOf(SelectSeq([i \in DOMAIN c.mask |-> i], LAMBDA i : c.mask[i]), c.n) IN
    IF c.out.t = "ok" /\ c.out.list = [i \in DOMAIN want |-> <<1, want[i]>>] THEN <<TRUE, <<>>>> ELSE <<FALSE, <<"expected", want, "observed", c.out>>>>
\* The order of two rows on a column.
Sgn(d) == IF d < 0 THEN -1 ELSE IF d > 0 THEN 1 ELSE 0
CmpVerdict(c) ==
    With([a |-> Seen(c.a), b |-> Seen(c.b)], LAMBDA s :
    LET want == FieldCmp(c.type, s.a, s.b, c.exact) IN
    IF c.out.t = "ok" /\ Sgn(c.out.n) = Sgn(want) THEN <<TRUE, <<>>>> ELSE <<FALSE, <<"expected", want, "observed", c.out>>>>)
Verdict(c) == IF ~c.same THEN <<FALSE, <<"the data set was modified">>>>
              ELSE CASE c.op = "select" -> SelectVerdict(c) [] c.op = "where" -> WhereVerdict(c) [] c.op = "cmp" -> CmpVerdict(c)

TInit == CaseInit
TNext == /\ Cur <= NumCases
         /\ \E w \in {Verdict(Cases[Cur])} : Judge(w[1], w[2])
=============================================================================
