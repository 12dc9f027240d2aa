--------------------------- MODULE ComputedTrace ----------------------------
(* Judges recorded reads of computed columns.                                *)
EXTENDS Computed, CaseIO

RowOf(c) == [i \in DOMAIN c.row |-> [n |-> c.row[i].n, v |-> Cell(c.row[i].t, c.row[i].v)]]
Observed(o, t) == IF o.t \in {"error", "panic"} THEN X(o.t, FALSE) ELSE IF o.t = "null" THEN NullX(t)
                  ELSE IF o.t = "far" THEN X("DateTime", [s |-> Int0, ns |-> -1])
                  ELSE With(Seen(o), LAMBDA w : X(w.t, w.v))
Right(x, r, t) ==
    CASE r.how = "text" -> r.out.t # "panic" /\ ((~Firm(x) /\ x.t # "error") \/ r.out.s = TextForm(x, t))
      [] OTHER -> Agrees(x, Observed(r.out, t))
\* Where a definition is circular an error is always right.
Bad(c, row) ==
    LET Want(i) == With(Computed(c.comps, i, row, {}, DocLevel), LAMBDA x : IF Circular(c.comps, i, {}) THEN Soft(x) ELSE x)
    IN With([i \in DOMAIN c.comps |-> Want(i)], LAMBDA w :
       [k \in {j \in DOMAIN c.reads : ~Right(w[c.reads[j].c], c.reads[j], c.comps[c.reads[j].c].t)} |-> w[c.reads[k].c]])

TInit == CaseInit
TNext == /\ Cur <= NumCases
         /\ \E b \in {Bad(Cases[Cur], RowOf(Cases[Cur]))} : Judge(DOMAIN b = {}, b)
=============================================================================
