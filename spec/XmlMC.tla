------------------------------- MODULE XmlMC --------------------------------
(* All small documents, written piece by piece, with the laws that reading   *)
(* and selecting obey.                                                       *)
EXTENDS Xml, Json
CONSTANT MaxPieces
VARIABLES doc, s
vars == <<doc, s>>
a == <<97>>
b == <<98>>
x == <<120>>
Open(n, at, self) == [k |-> "open", pre |-> <<>>, name |-> n, attrs |-> at, self |-> self]
Attr(v) == <<[pre |-> <<>>, name |-> a, value |-> v]>>
Opens == {Open(n, at, self) : n \in {a, b}, at \in {<<>>, Attr(x)}, self \in BOOLEAN}
Texts == {[k |-> "text", t |-> x], [k |-> "ref", c |-> 60], [k |-> "comment", t |-> x]}
Add(p) == doc' = Append(doc, p) /\ s' = Feed(s, p)
Init == doc = <<Open(a, <<>>, FALSE)>> /\ s = Feed(Start, doc[1])
Closes == [k |-> "close", pre |-> <<>>, name |-> s.nodes[s.stack[Len(s.stack)]].name]
Next == /\ s.stack # <<>>
        /\ \/ Len(doc) + Len(s.stack) < MaxPieces /\ \E p \in Opens \cup Texts : Add(p)
           \/ Add(Closes) /\ (IF Len(s.stack) = 1 THEN PrintT("PLAN " \o ToJson(doc')) ELSE TRUE)
Spec == Init /\ [][Next]_vars
Done == s.stack = <<>>
Step(n, p) == [name |-> n, pred |-> p]
None == [k |-> "none"]
Preds == {None} \cup {[k |-> kk, name |-> n, has |-> h, value |-> x] : kk \in {"attr", "child"}, n \in {a, Star}, h \in BOOLEAN}
Laws == Done =>
    LET ns == s.nodes
        raw == WriteAll(doc)
    IN /\ s.at = Len(raw) /\ Read(doc) = ns
       /\ \A i \in DOMAIN ns : (ns[i].parent = 0) = (i = 1) /\ (i > 1 => ns[i].parent < i /\ ns[i].level = ns[ns[i].parent].level + 1)
       /\ \A p \in Preds :
            LET all == Select(ns, raw, <<1>>, <<Step(Star, p)>>)
                deep == Select(ns, raw, <<1>>, <<Step(Star, None), Step(a, p)>>)
            IN /\ \A k \in DOMAIN all : ns[all[k]].parent = 1
               /\ Len(all) = Len(Select(ns, raw, <<1>>, <<Step(a, p)>>)) + Len(Select(ns, raw, <<1>>, <<Step(b, p)>>))
               /\ \A k \in DOMAIN deep : ns[deep[k]].level = 2 /\ (k > 1 => deep[k - 1] < deep[k])
               /\ p.k # "none" /\ p.has => \A k \in DOMAIN all : \E j \in DOMAIN Select(ns, raw, <<1>>, <<Step(Star, [p EXCEPT !.has = FALSE])>>) : TRUE
=============================================================================
