------------------------------- MODULE GuidMC -------------------------------
(* An identifier travels through text and byte forms; the laws hold for      *)
(* every pair and triple of boundary identifiers.                            *)
EXTENDS Guid
Base == [i \in 1 .. 16 |-> 0]
Ids == {Base, [i \in 1 .. 16 |-> 255], [i \in 1 .. 16 |-> i], [i \in 1 .. 16 |-> 127 + (i % 3)]}
       \cup {[Base EXCEPT ![k] = v] : k \in 1 .. 16, v \in {1, 128}}
VARIABLES g, form
vars == <<g, form>>
Init == g \in Ids /\ form = <<"id">>
ToText == form[1] = "id" /\ form' = <<"text", TextOf(g)>> /\ UNCHANGED g
ToPlain == form[1] = "id" /\ form' = <<"text", Upper(Plain(g))>> /\ UNCHANGED g
ToUrn == form[1] = "id" /\ form' = <<"text", Upper(Urn) \o Plain(g)>> /\ UNCHANGED g
ToBytes(s) == form[1] = "id" /\ form' = <<"bytes", BytesOf(g, s), s>> /\ UNCHANGED g
Back == \/ form[1] = "text" /\ g' = ParseOf(form[2])[1] /\ form' = <<"id">>
        \/ form[1] = "bytes" /\ g' = FromBytes(form[2], form[3])[1] /\ form' = <<"id">>
Next == ToText \/ ToPlain \/ ToUrn \/ ToBytes(TRUE) \/ ToBytes(FALSE) \/ Back
Spec == Init /\ [][Next]_vars
\* No conversion changes the identifier.
Stable == [][g' = g]_vars
Laws == \A h \in Ids : /\ Order(g, h) = -Order(h, g)
                       /\ (Order(g, h) = 0) = (g = h)
                       /\ \A k \in Ids : Order(g, h) < 0 /\ Order(h, k) < 0 => Order(g, k) < 0
=============================================================================
