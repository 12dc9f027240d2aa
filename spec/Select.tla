------------------------------- MODULE Select -------------------------------
(* Selections from a data set: filter statements, sorted and limited, and    *)
(* the identifier statements of a signal selection.                          *)
(*                                                                           *)
(* A data set is a sequence of tables [n |-> name, c |-> columns, r |->      *)
(* rows]: a column is [n |-> name, t |-> type] and a row a sequence of field *)
(* values (Value.tla).  A row is named <<table number, row number>>.         *)
EXTENDS Expr

NameEq(a, b) == UpperU(a) = UpperU(b)
\* Number of the element of q with the given name, 0 if there is none.
Numbered(q, s) == LET hit == {i \in DOMAIN q : NameEq(q[i].n, s)} IN
                  IF hit = {} THEN 0 ELSE CHOOSE i \in hit : \A j \in hit : i <= j
RowX(tab, r) == [i \in DOMAIN tab.c |-> [n |-> tab.c[i].n, v |-> CellOf(tab.c[i].t, tab.r[r][i])]]

-----------------------------------------------------------------------------
(* Conditions.                                                               *)
\* Faults that are found before any row is looked at.
RECURSIVE Faulty(_, _)
Faulty(e, tab) ==
    CASE e.k = "bad" -> TRUE
      [] e.k \in {"null", "lit"} -> FALSE
      [] e.k = "col" -> Numbered(tab.c, Named(e.s)) = 0
      [] e.k \in {"un", "isnull"} -> Faulty(e.x, tab)
      [] e.k \in {"bin", "like"} -> Faulty(e.x, tab) \/ Faulty(e.y, tab)
      [] e.k = "in" -> Faulty(e.x, tab) \/ \E i \in DOMAIN e.q : Faulty(e.q[i], tab)
      [] e.k = "fn" -> (e.f \notin DOMAIN Sig /\ e.f \notin LazyFns) \/ \E i \in DOMAIN e.q : Faulty(e.q[i], tab)
\* What a condition says of a row; strict: it must be a Boolean.
Says(e, row, strict) ==
    With(Value(e, row), LAMBDA v :
    CASE v.t = "error" -> "error"
      [] v.t = "any" -> "open"
      [] v.t \in {"Boolean", "Undefined"} -> IF ~v.n /\ v.v THEN "yes" ELSE "no"
      [] OTHER -> IF strict THEN "error" ELSE "no")

-----------------------------------------------------------------------------
(* Sorting.  A term is [c |-> column number, desc, exact].                   *)
Kind(t) == CASE t = "Single" -> "Double" [] IsInt(t) -> "Int64" [] OTHER -> t
\* Null comes before every value.
FieldCmp(t, a, b, exact) ==
    IF a.t = "null" \/ b.t = "null" THEN (IF a.t = b.t THEN 0 ELSE IF a.t = "null" THEN -1 ELSE 1)
    ELSE CmpOn(Kind(t), a.v, b.v, exact)
RECURSIVE TermsCmp(_, _, _, _, _)
TermsCmp(tab, terms, k, i, j) ==
    IF k > Len(terms) THEN 0
    ELSE LET q == terms[k] IN
         With(FieldCmp(tab.c[q.c].t, tab.r[i][q.c], tab.r[j][q.c], q.exact), LAMBDA d :
         IF d = 0 THEN TermsCmp(tab, terms, k + 1, i, j) ELSE IF q.desc THEN -d ELSE d)
\* Rows that sort as equal keep the order of the table.
Sorted(tab, terms, rs) == SortSeq(rs, LAMBDA i, j : With(TermsCmp(tab, terms, 1, i, j), LAMBDA d : d < 0 \/ (d = 0 /\ i < j)))
FirstOf(rs, n) == IF n < 0 \/ n >= Len(rs) THEN rs ELSE SubSeq(rs, 1, n)

-----------------------------------------------------------------------------
(* One filter: the rows of a table that satisfy a condition.                 *)
(* Result [st, rows]: st "ok"; "error": an error must be reported; "may": an *)
(* error concerns only rows beyond the limit; "open": nothing is required.   *)
Worse(a, b) == IF "error" \in {a, b} THEN "error" ELSE IF "open" \in {a, b} THEN "open" ELSE IF "may" \in {a, b} THEN "may" ELSE "ok"
FilterRows(tab, e, terms, n, strict) ==
    IF Faulty(e, tab) THEN [st |-> "error", rows |-> <<>>]
    ELSE LET early == terms = <<>> /\ n >= 0
             step(s, r) == With(Says(e, RowX(tab, r), strict), LAMBDA w :
                           IF early /\ Len(s.rows) >= n THEN [s EXCEPT !.st = Worse(@, IF w \in {"error", "open"} THEN "may" ELSE "ok")]
                           ELSE CASE w = "yes" -> [s EXCEPT !.rows = Append(@, r)]
                                  [] w = "no" -> s
                                  [] OTHER -> [s EXCEPT !.st = Worse(@, w)])
         IN With(FoldLeft(step, [st |-> "ok", rows |-> <<>>], [i \in 1 .. Len(tab.r) |-> i]), LAMBDA s :
            [st |-> s.st, rows |-> FirstOf(IF terms = <<>> THEN s.rows ELSE Sorted(tab, terms, s.rows), n)])

-----------------------------------------------------------------------------
(* Selections: a sequence of statements.                                     *)
(*   [k |-> "filter", tab, e, ord, n]   FILTER [TOP n] tab WHERE e ORDER BY  *)
(*   [k |-> "expr", e]                  the same on the primary table        *)
(*   [k |-> "guid" / "key" / "tag", s]  an identifier                        *)
(* q: [ds, prim |-> name of the primary table, sid, key, tag |-> names of    *)
(* its columns that identify signals, lim, sort |-> are TOP and ORDER BY     *)
(* respected, rows, ids |-> what is wanted].                                 *)
NoRows(st) == [st |-> st, rows |-> <<>>]
PrimOf(q) == Numbered(q.ds, q.prim)
TermsOf(tab, ord) == [i \in DOMAIN ord |-> [c |-> Numbered(tab.c, Named(ord[i].c)), desc |-> ord[i].desc, exact |-> ord[i].exact]]
OnTable(q, ti, e, ord, n, strict) ==
    LET tab == q.ds[ti]
        terms == TermsOf(tab, ord)
    IN IF \E i \in DOMAIN terms : terms[i].c = 0 THEN NoRows("error")
       ELSE IF q.ids /\ ti # PrimOf(q) THEN NoRows("open")            \* which column identifies signals there?
       ELSE IF q.ids /\ Numbered(tab.c, q.sid) = 0 THEN NoRows("error")
       ELSE With(FilterRows(tab, e, IF q.sort THEN terms ELSE <<>>, IF q.lim THEN n ELSE -1, strict), LAMBDA f :
            [st |-> f.st, rows |-> [i \in DOMAIN f.rows |-> <<ti, f.rows[i]>>]])
\* The row an identifier designates, if any: the first whose field matches.
Lookup(q, col, Fits0(_)) ==
    LET p == PrimOf(q) IN
    IF p = 0 THEN NoRows("ok")
    ELSE LET tab == q.ds[p]
             c == Numbered(tab.c, col)
         IN IF c = 0 \/ Numbered(tab.c, q.sid) = 0 THEN NoRows("ok")
            ELSE LET hit == {r \in DOMAIN tab.r : Fits0(tab.r[r][c])} IN
                 [st |-> "ok", rows |-> IF hit = {} THEN <<>> ELSE <<<<p, CHOOSE r \in hit : \A x \in hit : r <= x>>>>]
ZeroId == [i \in 1 .. 16 |-> 0]
GuidOf(s) == ParseOf(IF s[1] = 39 THEN Inner(s) ELSE s)[1]
Part(q, s) ==
    CASE s.k = "filter" -> (LET ti == Numbered(q.ds, Named(s.tab)) IN
                            IF ti = 0 THEN NoRows("error") ELSE OnTable(q, ti, s.e, s.ord, s.n, q.strict))
      [] s.k = "expr" -> (IF PrimOf(q) = 0 THEN NoRows("error") ELSE OnTable(q, PrimOf(q), s.e, <<>>, -1, q.strict))
      [] s.k = "guid" -> Lookup(q, q.sid, LAMBDA f : f.t = "Guid" /\ f.v # ZeroId /\ f.v = GuidOf(s.s))
      [] s.k = "key" -> Lookup(q, q.key, LAMBDA f : f.t = "String" /\ NameEq(f.v, s.s))
      [] s.k = "tag" -> Lookup(q, q.tag, LAMBDA f : f.t = "String" /\ NameEq(f.v, Inner(s.s)))
\* The signal IDs of rows, in order.
IdOf(q, r) == LET tab == q.ds[r[1]]
                  c == Numbered(tab.c, q.sid)
                  f == tab.r[r[2]][c]
              IN IF c = 0 THEN ZeroId ELSE IF f.t = "Guid" THEN f.v ELSE ZeroId
IdsOf(q, rs) == SelectSeq([i \in DOMAIN rs |-> IdOf(q, rs[i])], LAMBDA g : g # ZeroId)
IdsPart(q, s, part) == IF s.k = "guid" THEN (IF GuidOf(s.s) = ZeroId THEN <<>> ELSE <<GuidOf(s.s)>>) ELSE IdsOf(q, part.rows)

Once(qs) == FoldLeft(LAMBDA a, x : IF \E i \in DOMAIN a : a[i] = x THEN a ELSE Append(a, x), <<>>, qs)
Joined(qq) == FoldLeft(LAMBDA a, x : a \o x, <<>>, qq)
\* [st, one |-> is there a single statement, pure |-> no identifiers, rows, ids]
Selection(q, stmts) ==
    With([i \in DOMAIN stmts |-> Part(q, stmts[i])], LAMBDA ps :
    LET one == Len(stmts) = 1
        uni(s) == IF one THEN s ELSE Once(s)
    IN [st |-> FoldLeft(LAMBDA a, p : Worse(a, p.st), "ok", ps),
        one |-> one,
        pure |-> \A i \in DOMAIN stmts : stmts[i].k \in {"filter", "expr"},
        rows |-> uni(Joined([i \in DOMAIN ps |-> ps[i].rows])),
        ids |-> uni(Joined([i \in DOMAIN ps |-> IdsPart(q, stmts[i], ps[i])]))])

-----------------------------------------------------------------------------
(* Does an observed result agree?                                            *)
Els(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
\* A list result: the order of several statements with identifiers among them is not prescribed.
ListAgrees(x, want, got) == IF x.one \/ x.pure THEN got = want ELSE Els(got) = Els(want) /\ Distinct(got)
SetAgrees(want, got) == Els(got) = Els(want) /\ Distinct(got)
=============================================================================
