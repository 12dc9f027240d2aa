------------------------------ MODULE DataSet -------------------------------
(* Data sets: tables by name (ignoring case), their columns, their rows, and *)
(* what loading one from a schema and records must give.  A column is        *)
(* [name, type, expr]; a table [name, cols, rows]; a row a sequence of       *)
(* values, one per column; a data set a sequence of tables with different    *)
(* names.                                                                    *)
EXTENDS Value

XsdType(x, ext) ==
    CASE x = "string" -> IF ext THEN "Guid" ELSE "String"
      [] x = "boolean" -> "Boolean" [] x = "dateTime" -> "DateTime" [] x = "float" -> "Single" [] x = "double" -> "Double"
      [] x = "decimal" -> "Decimal" [] x = "byte" -> "Int8" [] x = "short" -> "Int16" [] x = "int" -> "Int32" [] x = "long" -> "Int64"
      [] x = "unsignedByte" -> "UInt8" [] x = "unsignedShort" -> "UInt16" [] x = "unsignedInt" -> "UInt32" [] x = "unsignedLong" -> "UInt64"
      [] OTHER -> ""
SameName(a, b) == Upper(a) = Upper(b)
\* Position of the column with a name, or 0.
ColAt(cols, name) == LET s == {k \in DOMAIN cols : SameName(cols[k].name, name)} IN IF s = {} THEN 0 ELSE CHOOSE k \in s : TRUE
TableAt(ds, name) == LET s == {k \in DOMAIN ds : SameName(ds[k].name, name)} IN IF s = {} THEN 0 ELSE CHOOSE k \in s : TRUE

-----------------------------------------------------------------------------
(* Loading.  A declared table is [name, fields]; a declared field [name,     *)
(* xsd, ext, expr]; a record [table, vals] with vals a sequence of           *)
(* [name, lex].                                                              *)
Columns(fields) == FoldLeft(LAMBDA r, f : LET t == XsdType(f.xsd, f.ext) IN IF t = "" THEN r ELSE Append(r, [name |-> f.name, type |-> t, expr |-> f.expr]), <<>>, fields)
\* The value of a stored column of a record: the text written for it, or null.
Stored(cols, rec, k) ==
    LET at == {j \in DOMAIN rec.vals : SameName(rec.vals[j].name, cols[k].name)} IN
    IF at = {} THEN Null ELSE Lex(cols[k].type, rec.vals[CHOOSE j \in at : TRUE].lex)
\* A computed column here is a reference to another column of the same type.
RowOf(cols, rec) ==
    [k \in DOMAIN cols |-> IF cols[k].expr = <<>> THEN Stored(cols, rec, k) ELSE Stored(cols, rec, ColAt(cols, cols[k].expr))]
Load(decl, recs) ==
    [i \in DOMAIN decl |->
       LET cols == Columns(decl[i].fields)
           mine == SelectSeq(recs, LAMBDA r : r.table = decl[i].name)
       IN [name |-> decl[i].name, cols |-> cols, rows |-> [j \in DOMAIN mine |-> RowOf(cols, mine[j])]]]

-----------------------------------------------------------------------------
(* Operations on a data set in memory.                                       *)
New(name) == [name |-> name, cols |-> <<>>, rows |-> <<>>]

\* Adding a table replaces one of the same name.
AddTable(ds, t) == LET k == TableAt(ds, t.name) IN IF k = 0 THEN Append(ds, t) ELSE [ds EXCEPT ![k] = t]
RemoveTable(ds, name) == LET k == TableAt(ds, name) IN IF k = 0 THEN ds ELSE SubSeq(ds, 1, k - 1) \o SubSeq(ds, k + 1, Len(ds))
AddColumn(t, c) == [t EXCEPT !.cols = Append(@, c)]
AddRow(t) == [t EXCEPT !.rows = Append(@, [k \in DOMAIN t.cols |-> Null])]
SetValue(t, r, c, v) == [t EXCEPT !.rows[r][c] = v]
CloneRow(t, r) == [t EXCEPT !.rows = Append(@, t.rows[r])]

\* What a typed accessor gives: an error for another type, else the value or null.
Access(t, r, c, type) ==
    IF c \notin DOMAIN t.cols THEN V("error", FALSE)
    ELSE IF t.cols[c].type # type THEN V("error", FALSE) ELSE t.rows[r][c]
\* The text form of a value.
LOCAL Fixed6(d) == IF d.k = "nan" THEN T("NaN") ELSE IF d.k = "inf" THEN (IF d.n THEN T("-Inf") ELSE T("+Inf"))
                   ELSE With(FixedParts(d, 6), LAMBDA f : f.sign \o f.int \o <<46>> \o f.frac)
LOCAL DecText(d) ==
    IF d.x >= 0 THEN Dec(Mul(d.c, Pow(I(10), d.x)))
    ELSE LET u == MDec(d.c.m)
             w == IF Len(u) > -d.x THEN u ELSE [i \in 1 .. (1 - d.x) - Len(u) |-> 48] \o u
         IN (IF d.c.n THEN <<45>> ELSE <<>>) \o SubSeq(w, 1, Len(w) + d.x) \o <<46>> \o SubSeq(w, Len(w) + d.x + 1, Len(w))
AsText(v) ==
    CASE v.t = "null" -> T("<NULL>")
      [] v.t = "String" -> v.v
      [] v.t = "Boolean" -> IF v.v THEN T("true") ELSE T("false")
      [] v.t \in {"Single", "Double"} -> Fixed6(v.v)
      [] v.t = "Decimal" -> DecText(v.v)
      [] v.t = "Guid" -> TextOf(v.v)
      [] OTHER -> Dec(v.v)
=============================================================================
