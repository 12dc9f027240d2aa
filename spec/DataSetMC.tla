----------------------------- MODULE DataSetMC ------------------------------
(* A small data set that is built and changed by every sequence of           *)
(* operations.                                                               *)
EXTENDS DataSet
CONSTANT Depth
VARIABLES ds, n
vars == <<ds, n>>
a == <<97>>
A == <<65>>
b == <<98>>
Names == {a, A, b}
Vals == {Null, V("Int32", I(1)), V("Int32", I(2))}
Init == ds = <<>> /\ n = 0
Do(d) == n < Depth /\ ds' = d /\ n' = n + 1
Next == \/ \E x \in Names : Do(AddTable(ds, New(x)))
        \/ \E x \in Names : Do(RemoveTable(ds, x))
        \/ \E k \in DOMAIN ds : \/ \E x \in Names : ColAt(ds[k].cols, x) = 0 /\ ds[k].rows = <<>> /\ Do([ds EXCEPT ![k] = AddColumn(@, [name |-> x, type |-> "Int32", expr |-> <<>>])])
                                \/ Len(ds[k].rows) < 2 /\ Do([ds EXCEPT ![k] = AddRow(@)])
                                \/ \E r \in DOMAIN ds[k].rows : \/ \E c \in DOMAIN ds[k].cols, v \in Vals : Do([ds EXCEPT ![k] = SetValue(@, r, c, v)])
                                                                \/ Len(ds[k].rows) < 2 /\ Do([ds EXCEPT ![k] = CloneRow(@, r)])
Spec == Init /\ [][Next]_vars
Laws ==
    /\ \A i, j \in DOMAIN ds : SameName(ds[i].name, ds[j].name) => i = j
    /\ \A i \in DOMAIN ds : /\ \A r \in DOMAIN ds[i].rows : DOMAIN ds[i].rows[r] = DOMAIN ds[i].cols
                            /\ \A x \in Names : ColAt(ds[i].cols, x) = ColAt(ds[i].cols, Upper(x))
                            /\ \A r \in DOMAIN ds[i].rows, c \in DOMAIN ds[i].cols : Access(ds[i], r, c, "String").t = "error" /\ Access(ds[i], r, c, "Int32") = ds[i].rows[r][c]
    /\ \A x \in Names : TableAt(ds, x) = TableAt(ds, Upper(x))
\* Changing one table leaves the others as they were.
Isolated == [][\A i \in DOMAIN ds, j \in DOMAIN ds' : (SameName(ds[i].name, ds'[j].name) /\ ds[i] # ds'[j])
                  => \A k \in DOMAIN ds : k = i \/ \E m \in DOMAIN ds' : ds'[m] = ds[k]]_vars
=============================================================================
