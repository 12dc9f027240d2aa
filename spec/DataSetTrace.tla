---------------------------- MODULE DataSetTrace ----------------------------
(* Judges data sets loaded from documents, and built by operations, in the   *)
(* implementation.                                                           *)
EXTENDS DataSet, CaseIO

\* The text of a date and time as written: the date and time, at most two digits of the
\* fraction without trailing zeros, and the zone.
DateText(lex0) ==
    LET lex == Trim(lex0)
        rest == SubSeq(lex, 20, Len(lex))
        frac == IF rest # <<>> /\ rest[1] = 46
                THEN SubSeq(rest, 2, CHOOSE i \in 1 .. Len(rest) : (\A j \in 2 .. i : IsDigit(rest[j])) /\ (i = Len(rest) \/ ~IsDigit(rest[i + 1])))
                ELSE <<>>
        zone == IF frac = <<>> THEN rest ELSE SubSeq(rest, Len(frac) + 2, Len(rest))
        f2 == SubSeq(frac \o <<48, 48>>, 1, 2)
        ft == IF f2 = <<48, 48>> THEN <<>> ELSE IF f2[2] = 48 THEN <<46, f2[1]>> ELSE <<46>> \o f2
        zt == IF zone = <<>> \/ zone = <<90>> \/ zone = T("-00:00") THEN T("+00:00") ELSE zone
    IN SubSeq(lex, 1, 19) \o ft \o zt
\* A date and time set as a value has whole milliseconds and is UTC.
LOCAL D(k, w) == LET t == MDec(I(k).m) IN [i \in 1 .. w - Len(t) |-> 48] \o t
PartsText(p) == DateText(D(p[1], 4) \o <<45>> \o D(p[2], 2) \o <<45>> \o D(p[3], 2) \o <<84>> \o D(p[4], 2) \o <<58>> \o D(p[5], 2) \o <<58>> \o D(p[6], 2) \o <<46>> \o D(p[7], 9))

\* The values of a row as expected, with texts for dates.
Texts(v, how) == IF v.t = "DateTime" THEN how ELSE AsText(v)

RowWhy(t, r, o, dates) ==
    LET row == t.rows[r]
        n == Len(t.cols)
        Bad(q) == {k \in 1 .. n : ~Same(Seen(q[k]), row[k])}
        First(s) == CHOOSE k \in s : \A j \in s : k <= j
        Tx(k) == Texts(row[k], dates[k]) IN
    IF Len(o.v) # n THEN <<"row length", Len(o.v)>>
    ELSE IF Bad(o.v) # {} THEN <<"value", r, First(Bad(o.v)), o.v[First(Bad(o.v))], "expected", row[First(Bad(o.v))]>>
    ELSE IF Bad(o.n) # {} THEN <<"value by name", r, First(Bad(o.n)), o.n[First(Bad(o.n))], "expected", row[First(Bad(o.n))]>>
    ELSE IF Bad(o.ty) # {} THEN <<"typed value", r, First(Bad(o.ty)), o.ty[First(Bad(o.ty))], "expected", row[First(Bad(o.ty))]>>
    ELSE IF Bad(o.tn) # {} THEN <<"typed value by name", r, First(Bad(o.tn)), o.tn[First(Bad(o.tn))], "expected", row[First(Bad(o.tn))]>>
    ELSE IF \E k \in DOMAIN o.wr : ~Same(Seen(o.wr[k].val), Access(t, r, o.wr[k].c + 1, o.wr[k].type)) THEN <<"access as another type", r, o.wr>>
    ELSE IF \E k \in DOMAIN o.wr : o.wr[k].c + 1 \notin 1 .. n /\ (o.wr[k].any.t # "error" \/ o.wr[k].text # <<>>) THEN <<"access outside", r>>
    ELSE IF \E k \in 1 .. n : o.tx[k] # Tx(k) \/ o.xn[k] # Tx(k)
         THEN LET k == First({j \in 1 .. n : o.tx[j] # Tx(j) \/ o.xn[j] # Tx(j)}) IN <<"text", r, k, o.tx[k], o.xn[k], "expected", Tx(k)>>
    ELSE IF ~o.miss THEN <<"unknown column", r>>
    ELSE <<>>
FirstBad(q) == LET b == {k \in DOMAIN q : q[k] # <<>>} IN IF b = {} THEN <<>> ELSE q[CHOOSE j \in b : \A i \in b : j <= i]
TableWhy(t, o, dates) ==
    IF o.name # t.name THEN <<"table name", o.name>>
    ELSE IF Len(o.cols) # Len(t.cols) THEN <<"columns", [k \in DOMAIN o.cols |-> o.cols[k].name], "expected", [k \in DOMAIN t.cols |-> t.cols[k].name]>>
    ELSE IF \E k \in DOMAIN t.cols : LET a == o.cols[k]
                                         b == t.cols[k] IN a.name # b.name \/ a.type # b.type \/ a.expr # b.expr \/ a.at # k - 1 \/ a.found # k - 1 \/ ~a.same
         THEN <<"columns differ", o.cols, "expected", t.cols>>
    ELSE IF ~o.same \/ ~o.outside THEN <<"table lookups", o.same, o.outside>>
    ELSE IF Len(o.rows) # Len(t.rows) THEN <<"rows", Len(o.rows), "expected", Len(t.rows)>>
    ELSE FirstBad([r \in DOMAIN t.rows |-> RowWhy(t, r, o.rows[r], dates[r])])
\* dates[i][r][c]: the text expected for a date and time in table i, row r, column c.
DsWhy(ds, o, dates) ==
    IF o.count # Len(ds) \/ o.names # Len(ds) \/ Len(o.tables) # Len(ds) THEN <<"tables", o.count, "expected", Len(ds)>>
    ELSE IF \E k \in DOMAIN o.look : o.look[k].found # (TableAt(ds, o.look[k].name) # 0) THEN <<"table lookup", o.look>>
    ELSE FirstBad([k \in DOMAIN o.tables |-> LET i == TableAt(ds, o.tables[k].name) IN IF i = 0 THEN <<"unexpected table", o.tables[k].name>> ELSE TableWhy(ds[i], o.tables[k], dates[i])])

-----------------------------------------------------------------------------
LexFor(cols, rec, k) ==
    LET at == {j \in DOMAIN rec.vals : SameName(rec.vals[j].name, cols[k].name)} IN
    IF at = {} THEN <<>> ELSE rec.vals[CHOOSE j \in at : TRUE].lex
LoadDates(decl, recs) ==
    [i \in DOMAIN decl |->
       LET cols == Columns(decl[i].fields)
           mine == SelectSeq(recs, LAMBDA r : r.table = decl[i].name)
       IN [j \in DOMAIN mine |-> [k \in DOMAIN cols |->
             IF cols[k].type # "DateTime" THEN <<>>
             ELSE LET l == LexFor(cols, mine[j], IF cols[k].expr = <<>> THEN k ELSE ColAt(cols, cols[k].expr)) IN IF l = <<>> THEN <<>> ELSE DateText(l)]]]
LoadWhy(c) ==
    IF c.err # (c.bad # "") THEN <<"error", c.err>>
    ELSE IF c.bad # "" THEN IF c.out.count = 0 THEN <<>> ELSE <<"tables of a refused document">>
    ELSE With(Load(c.decl, c.recs), LAMBDA ds : DsWhy(ds, c.out, LoadDates(c.decl, c.recs)))

\* Values are kept with the text of their dates beside them.
Fill(t) == [t EXCEPT !.rows = [r \in DOMAIN t.rows |-> [k \in DOMAIN t.cols |-> IF t.cols[k].expr = <<>> THEN t.rows[r][k] ELSE t.rows[r][ColAt(t.cols, t.cols[k].expr)]]]]
Op(s, o) ==
    LET k == TableAt(s.ds, o.name)
        Bad(w) == [s EXCEPT !.why = w] IN
    IF s.why # <<>> THEN s
    ELSE CASE o.op = "table" -> [s EXCEPT !.ds = AddTable(@, New(o.name))]
           [] o.op = "drop" -> IF o.ok # (k # 0) THEN Bad(<<"removing a table", o>>) ELSE [s EXCEPT !.ds = RemoveTable(@, o.name)]
           [] o.op = "column" -> [s EXCEPT !.ds[k] = AddColumn(@, [name |-> o.col, type |-> o.type, expr |-> o.expr])]
           [] o.op = "row" -> [s EXCEPT !.ds[k] = AddRow(@)]
           [] o.op = "clone" -> [s EXCEPT !.ds[k] = CloneRow(@, o.r)]
           [] o.op = "clear" -> [s EXCEPT !.ds[k].rows = <<>>]
           [] o.op = "set" -> LET ok == o.c \in DOMAIN s.ds[k].cols /\ s.ds[k].cols[o.c].expr = <<>> IN
                              IF o.ok # ok THEN Bad(<<"setting a value", o>>)
                              ELSE IF ok THEN [s EXCEPT !.ds[k] = SetValue(@, o.r, o.c, IF o.v.t = "DateTime" THEN [t |-> "DateTime", v |-> Instant(o.v.p, 0), p |-> o.v.p] ELSE Seen(o.v))]
                              ELSE s
ProgWhy(c) ==
    With(FoldLeft(Op, [ds |-> <<>>, why |-> <<>>], c.ops), LAMBDA s :
      IF s.why # <<>> THEN s.why
      ELSE With([i \in DOMAIN s.ds |-> Fill(s.ds[i])], LAMBDA ds :
           DsWhy(ds, c.out, [i \in DOMAIN ds |-> [r \in DOMAIN ds[i].rows |-> [k \in DOMAIN ds[i].cols |->
               IF ds[i].rows[r][k].t = "DateTime" THEN PartsText(ds[i].rows[r][k].p) ELSE <<>>]]])))
Why(c) == IF c.panic # "" THEN <<"panic", c.panic>> ELSE IF c.k = "load" THEN LoadWhy(c) ELSE ProgWhy(c)
TInit == CaseInit
TNext == Cur <= NumCases /\ \E w \in {Why(Cases[Cur])} : Judge(w = <<>>, w)
=============================================================================
