--------------------------------- MODULE Xml --------------------------------
(* XML documents and path selection.  A document is a sequence of pieces     *)
(* (tags, text, CDATA sections, character references, comments); reading it  *)
(* is a machine with a stack of open elements that builds the nodes in       *)
(* document order.  Texts are sequences of bytes.                            *)
EXTENDS Text, FiniteSets

-----------------------------------------------------------------------------
(* How pieces are written.                                                   *)
LOCAL CatAll(q) == FoldLeft(LAMBDA r, x : r \o x, <<>>, q)
EscText(t) == CatAll([i \in DOMAIN t |-> CASE t[i] = 60 -> T("&lt;") [] t[i] = 62 -> T("&gt;") [] t[i] = 38 -> T("&amp;") [] OTHER -> <<t[i]>>])
EscAttr(t) == CatAll([i \in DOMAIN t |-> CASE t[i] = 60 -> T("&lt;") [] t[i] = 34 -> T("&quot;") [] t[i] = 38 -> T("&amp;") [] OTHER -> <<t[i]>>])
\* UTF-8 of a character below 2^16.
Utf8(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Dec10(_)
Dec10(k) == IF k < 10 THEN <<48 + k>> ELSE Dec10(k \div 10) \o <<48 + (k % 10)>>
QName(pre, name) == IF pre = <<>> THEN name ELSE pre \o <<58>> \o name
Write(p) ==
    CASE p.k = "open" -> <<60>> \o QName(p.pre, p.name)
                         \o CatAll([i \in DOMAIN p.attrs |-> <<32>> \o QName(p.attrs[i].pre, p.attrs[i].name) \o <<61, 34>> \o EscAttr(p.attrs[i].value) \o <<34>>])
                         \o (IF p.self THEN <<47, 62>> ELSE <<62>>)
      [] p.k = "close" -> <<60, 47>> \o QName(p.pre, p.name) \o <<62>>
      [] p.k = "text" -> EscText(p.t)
      [] p.k = "cdata" -> T("<![CDATA[") \o p.t \o T("]]>")
      [] p.k = "ref" -> T("&#") \o Dec10(p.c) \o <<59>>
      [] p.k = "comment" -> T("<!--") \o p.t \o T("-->")
      [] p.k = "pi" -> T("<?") \o p.t \o T("?>")
WriteAll(ps) == CatAll([i \in DOMAIN ps |-> Write(ps[i])])

-----------------------------------------------------------------------------
(* Reading.                                                                  *)
Start == [nodes |-> <<>>, stack |-> <<>>, at |-> 0]
LOCAL TopOf(s) == s.stack[Len(s.stack)]
LOCAL AddText(s, t) == IF s.stack = <<>> THEN s ELSE [s EXCEPT !.nodes[TopOf(s)].text = @ \o t]
Feed(s, p) ==
    LET at == s.at + Len(Write(p)) IN
    CASE p.k = "open" ->
           [nodes |-> Append(s.nodes, [name |-> p.name, pre |-> p.pre, attrs |-> p.attrs, text |-> <<>>,
                                       parent |-> IF s.stack = <<>> THEN 0 ELSE TopOf(s), level |-> Len(s.stack),
                                       from |-> at + 1, to |-> at]),
            stack |-> IF p.self THEN s.stack ELSE Append(s.stack, Len(s.nodes) + 1),
            at |-> at]
      [] p.k = "close" -> [s EXCEPT !.nodes[TopOf(s)].to = s.at, !.stack = SubSeq(@, 1, Len(@) - 1), !.at = at]
      [] p.k = "text" \/ p.k = "cdata" -> [AddText(s, p.t) EXCEPT !.at = at]
      [] p.k = "ref" -> [AddText(s, Utf8(p.c)) EXCEPT !.at = at]
      [] OTHER -> [s EXCEPT !.at = at]
Read(ps) == FoldLeft(Feed, Start, ps).nodes

Kids(ns, i) == SelectSeq([k \in 1 .. Len(ns) |-> k], LAMBDA k : ns[k].parent = i)
Inner(ns, raw, i) == SubSeq(raw, ns[i].from, ns[i].to)
MaxDepth(ns) == 1 + CHOOSE d \in {ns[k].level : k \in DOMAIN ns} : \A k \in DOMAIN ns : ns[k].level <= d
RECURSIVE PathOf(_, _)
PathOf(ns, i) == IF i = 0 THEN <<47>> ELSE PathOf(ns, ns[i].parent) \o <<47>> \o ns[i].name

-----------------------------------------------------------------------------
(* Selection.  A path is a sequence of steps [name, pred] with pred one of   *)
(* [k |-> "none"], [k |-> "attr" or "child", name, has, value]; the name     *)
(* <<42>> ("*") stands for any.                                              *)
Star == <<42>>
NameIs(n, pat) == pat = Star \/ n = pat
Holds(ns, raw, i, p) ==
    CASE p.k = "none" -> TRUE
      [] p.k = "attr" -> \E a \in DOMAIN ns[i].attrs : NameIs(ns[i].attrs[a].name, p.name) /\ (p.has => ns[i].attrs[a].value = p.value)
      [] p.k = "child" -> \E c \in DOMAIN ns : /\ ns[c].parent = i
                                               /\ NameIs(ns[c].name, p.name)
                                               /\ p.has => (IF \E g \in DOMAIN ns : ns[g].parent = c THEN Inner(ns, raw, c) ELSE ns[c].text) = p.value
\* The nodes a path designates from the given nodes, in document order.
RECURSIVE Select(_, _, _, _)
Select(ns, raw, from, steps) ==
    LET next == SelectSeq([k \in 1 .. Len(ns) |-> k],
                          LAMBDA k : /\ \E f \in DOMAIN from : from[f] = ns[k].parent
                                     /\ NameIs(ns[k].name, steps[1].name)
                                     /\ Holds(ns, raw, k, steps[1].pred))
    IN IF Len(steps) = 1 THEN next ELSE Select(ns, raw, next, Tail(steps))

\* How a path is written; q is the quote put around values (0: none), sp blanks around the equal sign.
WritePred(p) == IF p.k = "none" THEN <<>>
                ELSE <<91>> \o (IF p.k = "attr" THEN <<64>> ELSE <<>>) \o p.name
                     \o (IF p.has THEN p.sp \o <<61>> \o p.sp \o (IF p.q = 0 THEN p.value ELSE <<p.q>> \o p.value \o <<p.q>>) ELSE <<>>)
                     \o <<93>>
WritePath(steps) == FoldLeft(LAMBDA r, s : (IF r = <<>> THEN <<>> ELSE r \o <<47>>) \o s.name \o WritePred(s.pred), <<>>, steps)
=============================================================================
