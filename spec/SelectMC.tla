------------------------------ MODULE SelectMC ------------------------------
(* All small tables and the filters and selections on them, with the laws    *)
(* that selecting obeys; prints each as a plan for the implementation.       *)
EXTENDS Select, Json
CONSTANTS MaxRows, MaxStmts, Signals
VARIABLES rows, stmts
vars == <<rows, stmts>>
\* A row: f a number, b a condition, id 1 or 2 and k the measurement key; 0 stands for null.
Kinds == IF Signals THEN [f : {1}, b : {1, 2}, id : {0, 1, 2}, k : {1, 2}] ELSE [f : {0, 1, 2}, b : {0, 1, 2}, id : {1}, k : {1}]
\* A statement: a filter with top (-1: none) and order, or an identifier.
Filters == IF Signals THEN [s : {"filter"}, top : {-1, 1}, ord : {"none"}] ELSE [s : {"filter"}, top : {-1, 0, 1, 2}, ord : {"none", "asc", "desc"}]
Idents == IF Signals THEN [s : {"guid", "key", "tag"}, top : {1, 3}, ord : {"none"}] ELSE {}
Init == rows = <<>> /\ stmts = <<>>
Next == \/ /\ stmts = <<>> /\ Len(rows) < MaxRows
           /\ \E r \in Kinds : rows' = Append(rows, r)
           /\ UNCHANGED stmts
        \/ /\ Len(stmts) < MaxStmts
           /\ \E s \in Filters \cup Idents : stmts' = Append(stmts, s)
           /\ UNCHANGED rows
           /\ PrintT("PLAN " \o ToJson([rows |-> rows, stmts |-> stmts']))
Spec == Init /\ [][Next]_vars

IntF(i) == IF i = 0 THEN Null ELSE V("Int32", I(i))
Bin == <<[n |-> T("F"), t |-> "Int32"], [n |-> T("B"), t |-> "Boolean"], [n |-> T("SignalID"), t |-> "Guid"],
         [n |-> T("ID"), t |-> "String"], [n |-> T("PointTag"), t |-> "String"]>>
G(i) == [k \in 1 .. 16 |-> IF k = 16 THEN i ELSE 7]
Key(i) == T("K:") \o <<48 + i>>
Tag(i) == T("K.") \o <<48 + i>>
Row(r) == <<IntF(r.f), IF r.b = 0 THEN Null ELSE V("Boolean", r.b = 1), IF r.id = 0 THEN Null ELSE V("Guid", G(r.id)), V("String", Key(r.k)), V("String", Tag(r.k))>>
Tab == [n |-> T("T"), c |-> Bin, r |-> [i \in DOMAIN rows |-> Row(rows[i])]]
Q(ids, lim, sort) == [ds |-> <<Tab>>, prim |-> T("T"), sid |-> T("SignalID"), key |-> T("ID"), tag |-> T("PointTag"),
                      lim |-> lim, sort |-> sort, rows |-> ~ids, ids |-> ids, strict |-> FALSE]
St(s) == CASE s.s = "filter" -> [k |-> "filter", tab |-> T("T"), e |-> [k |-> "col", s |-> T("B")], n |-> s.top,
                                 ord |-> IF s.ord = "none" THEN <<>> ELSE <<[c |-> T("F"), desc |-> s.ord = "desc", exact |-> FALSE]>>]
           [] s.s = "guid" -> [k |-> "guid", s |-> TextOf(G(s.top))]
           [] s.s = "key" -> [k |-> "key", s |-> Key(s.top)]
           [] s.s = "tag" -> [k |-> "tag", s |-> <<34>> \o Tag(s.top) \o <<34>>]
Ss == [i \in DOMAIN stmts |-> St(stmts[i])]
Matching == {i \in DOMAIN rows : rows[i].b = 1}
F(p) == rows[p[2]].f
\* One filter: the matching rows, sorted, ties in table order, the first n.
FilterLaw ==
    (Len(stmts) = 1 /\ stmts[1].s = "filter") =>
    LET s == stmts[1]
        x == Selection(Q(FALSE, TRUE, TRUE), Ss).rows
        all == Selection(Q(FALSE, FALSE, TRUE), Ss).rows
    IN /\ Els(all) = {<<1, i>> : i \in Matching} /\ Distinct(all)
       /\ \A i \in 1 .. Len(all) - 1 :
            CASE s.ord = "none" -> all[i][2] < all[i + 1][2]
              [] s.ord = "asc" -> F(all[i]) < F(all[i + 1]) \/ (F(all[i]) = F(all[i + 1]) /\ all[i][2] < all[i + 1][2])
              [] s.ord = "desc" -> F(all[i]) > F(all[i + 1]) \/ (F(all[i]) = F(all[i + 1]) /\ all[i][2] < all[i + 1][2])
       /\ x = (IF s.top < 0 \/ s.top > Len(all) THEN all ELSE SubSeq(all, 1, s.top))
\* The IDs of a selection are those of its statements, in whatever order.
Ids(ss) == Selection(Q(TRUE, TRUE, FALSE), ss).ids
SignalLaw ==
    stmts # <<>> =>
    /\ Distinct(Ids(Ss)) \/ Len(stmts) = 1
    /\ Els(Ids(Ss)) = UNION {Els(Ids(<<Ss[i]>>)) : i \in DOMAIN Ss}
    /\ Els(Ids(Ss)) = Els(Ids([i \in DOMAIN Ss |-> Ss[Len(Ss) + 1 - i]]))
    /\ \A i \in DOMAIN stmts : stmts[i].s = "guid" => G(stmts[i].top) \in Els(Ids(Ss))
=============================================================================
