------------------------------ MODULE Registry ------------------------------
(* The records the subscriber keeps about signals during a connection.  The  *)
(* objects that lookups return are numbered as they appear.                  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    up,      \* the connection is established
    gen,     \* connections so far
    rec,     \* signal -> object that stands for it on this connection
    used,    \* objects that have appeared
    fld,     \* signal -> what is known about it
    look     \* lookups in progress: key -> [s, g]

rvars == <<up, gen, rec, used, fld, look>>

None == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Unknown == [src |-> "", num |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, tag |-> "", type |-> "", ref |-> "", desc |-> "", upd |-> <<>>, mult |-> 1, add |-> 0]
Of(s) == IF s \in DOMAIN fld THEN fld[s] ELSE Unknown

RInit == up = FALSE /\ gen = 0 /\ rec = None /\ used = {} /\ fld = None /\ look = None

\* A connection is established: nothing is known about any signal.
Begin == up' = TRUE /\ gen' = gen + 1 /\ rec' = None /\ fld' = None /\ UNCHANGED <<used, look>>
End == up' = FALSE /\ UNCHANGED <<gen, rec, used, fld, look>>

Call(k, s) == look' = Upd(look, k, [s |-> s, g |-> IF up THEN gen ELSE 0]) /\ UNCHANGED <<up, gen, rec, used, fld>>
\* The lookup returns object p: during one connection always the same one for a signal.
Return(k, p) ==
    LET s == look[k].s IN
    /\ look' = [x \in DOMAIN look \ {k} |-> look[x]]
    /\ IF up /\ look[k].g = gen
       THEN IF s \in DOMAIN rec THEN p = rec[s] /\ UNCHANGED <<rec, used>>
            ELSE p \notin used /\ rec' = Upd(rec, s, p) /\ used' = used \cup {p}
       ELSE used' = used \cup {p} /\ UNCHANGED rec
    /\ UNCHANGED <<up, gen, fld>>

\* The application changes the linear adjustment through an object.
Adjust(p, m, a) ==
    /\ LET ss == {s \in DOMAIN rec : rec[s] = p} IN
       IF up /\ ss # {} THEN LET s == CHOOSE s \in ss : TRUE IN fld' = Upd(fld, s, [Of(s) EXCEPT !.mult = m, !.add = a])
       ELSE UNCHANGED fld
    /\ UNCHANGED <<up, gen, rec, used, look>>

\* A metadata row of signal s (0: none is given): columns cols are there; key is <<>> when the measurement key is not of the form source:number.
Row(f, r, cols) ==
    LET s == r.s
        o == IF s \in DOMAIN f THEN f[s] ELSE Unknown
        C(c, new, old) == IF c \in cols THEN new ELSE old
    IN IF s = 0 THEN f ELSE
       Upd(f, s, [o EXCEPT !.src = IF "ID" \in cols /\ r.key THEN r.src ELSE @, !.num = IF "ID" \in cols /\ r.key THEN r.num ELSE @,
                           !.tag = C("PointTag", r.tag, @), !.ref = C("SignalReference", r.ref, @), !.type = C("SignalAcronym", r.type, @),
                           !.desc = C("Description", r.desc, @), !.upd = C("UpdatedOn", r.upd, @)])
RECURSIVE Rows(_, _, _)
Rows(f, rows, cols) == IF rows = <<>> THEN f ELSE Rows(Row(f, Head(rows), cols), Tail(rows), cols)
Metadata(rows, cols) == fld' = (IF "SignalID" \in cols THEN Rows(fld, rows, cols) ELSE fld) /\ UNCHANGED <<up, gen, rec, used, look>>

\* A signal index cache fills in what is not known.
Entry(f, r) == LET o == IF r.s \in DOMAIN f THEN f[r.s] ELSE Unknown
               IN IF o.src = "" THEN Upd(f, r.s, [o EXCEPT !.src = r.src, !.num = r.num]) ELSE f
RECURSIVE Entries(_, _)
Entries(f, rs) == IF rs = <<>> THEN f ELSE Entries(Entry(f, Head(rs)), Tail(rs))
Cache(rs) == fld' = Entries(fld, rs) /\ UNCHANGED <<up, gen, rec, used, look>>

\* Everything sent has been handled: a signal shows f, and value v adjusted is w.
Shows(s, p, f) == /\ up
                  /\ (IF s \in DOMAIN rec THEN p = rec[s] ELSE p \notin used)
                  /\ f = Of(s)
                  /\ rec' = Upd(rec, s, p) /\ used' = used \cup {p}
                  /\ UNCHANGED <<up, gen, fld, look>>
Adjusted(s, v, w) == w = (v * Of(s).mult) + Of(s).add /\ UNCHANGED rvars
=============================================================================
