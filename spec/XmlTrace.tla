------------------------------ MODULE XmlTrace ------------------------------
(* Judges parsed documents and selections recorded from the implementation.  *)
EXTENDS Xml, CaseIO

Ns(pre, c) == IF pre = <<>> THEN <<>> ELSE IF pre = T("x") THEN T("urn:x") ELSE <<>>
AttrNs(p) == IF p = <<>> THEN <<>> ELSE IF p = T("x") THEN T("urn:x") ELSE p     \* p: x or xmlns
AttrSet(as) == {<<as[i].name, as[i].value, AttrNs(as[i].pre)>> : i \in DOMAIN as}
SeenAttrs(as) == {<<as[i].name, as[i].value, as[i].ns>> : i \in DOMAIN as}
Sibling(ns, i, d) == LET ks == Kids(ns, ns[i].parent)
                         at == CHOOSE k \in DOMAIN ks : ks[k] = i
                     IN IF i = 1 THEN 0 ELSE IF at + d \in DOMAIN ks THEN ks[at + d] ELSE 0
ItemsOf(ns, i) == {<<n, SelectSeq(Kids(ns, i), LAMBDA k : ns[k].name = n)>> : n \in {ns[k].name : k \in Range(Kids(ns, i))}}

NodeWhy(ns, raw, i, o, c) ==
    LET e == ns[i]
        ks == Kids(ns, i) IN
    IF o.name # e.name THEN <<"name", o.name>>
    ELSE IF o.ns # Ns(e.pre, c) THEN <<"namespace", o.ns>>
    ELSE IF o.text # e.text THEN <<"text", o.text, "expected", e.text>>
    ELSE IF SeenAttrs(o.attrs) # AttrSet(e.attrs) THEN <<"attributes", o.attrs>>
    ELSE IF o.parent # e.parent THEN <<"parent", o.parent>>
    ELSE IF o.level # e.level THEN <<"level", o.level>>
    ELSE IF o.kids # ks \/ o.gkids # ks THEN <<"children", o.kids, o.gkids>>
    ELSE IF o.first # (IF ks = <<>> THEN 0 ELSE ks[1]) \/ o.last # (IF ks = <<>> THEN 0 ELSE ks[Len(ks)]) \/ o.has # (ks # <<>>) THEN <<"first or last child">>
    ELSE IF o.next # Sibling(ns, i, 1) \/ o.prev # Sibling(ns, i, -1) THEN <<"siblings", o.next, o.prev>>
    ELSE IF {<<o.items[k].name, o.items[k].at>> : k \in DOMAIN o.items} # ItemsOf(ns, i) \/ \E k \in DOMAIN o.items : o.items[k].one # o.items[k].at[1] THEN <<"items", o.items>>
    ELSE IF o.path # PathOf(ns, i) THEN <<"path", o.path>>
    ELSE IF o.inner # Inner(ns, raw, i) THEN <<"inner XML", o.inner>>
    ELSE IF ~o.owner THEN <<"owner">>
    ELSE <<>>
FirstBad(q) == LET b == {k \in DOMAIN q : q[k] # <<>>} IN IF b = {} THEN <<>> ELSE LET k == CHOOSE j \in b : \A i \in b : j <= i IN <<k>> \o q[k]

SelWhy(ns, raw, s) ==
    IF s.panic # "" THEN <<"panic", s.path, s.panic>>
    ELSE IF s.steps = <<>> THEN <<>>                         \* not a path of the supported form: anything but a crash
    ELSE IF s.path # s.pre \o WritePath(s.steps) THEN <<"driver wrote", s.path>>
    ELSE LET e == Select(ns, raw, s.from, s.steps) IN
         IF s.out = e THEN <<>> ELSE <<"path", s.path, "selects", s.out, "expected", e>>
Why(c) ==
    LET raw == WriteAll(c.doc) IN
    IF c.raw # raw THEN <<"driver wrote another document">>
    ELSE IF c.err # "" THEN <<"refused", c.err>>
    ELSE \* evaluated once
    CHOOSE w \in {IF Len(c.nodes) # Len(ns) THEN <<"number of nodes", Len(c.nodes), Len(ns)>>
                  ELSE LET n == FirstBad([i \in DOMAIN ns |-> NodeWhy(ns, raw, i, c.nodes[i], c)]) IN
                       IF n # <<>> THEN <<"node">> \o n
                       ELSE IF c.max # MaxDepth(ns) THEN <<"depth", c.max>>
                       ELSE FirstBad([k \in DOMAIN c.sel |-> SelWhy(ns, raw, c.sel[k])]) : ns \in {Read(c.doc)}} : TRUE
TInit == CaseInit
TNext == Cur <= NumCases /\ \E w \in {Why(Cases[Cur])} : Judge(w = <<>>, w)
=============================================================================
