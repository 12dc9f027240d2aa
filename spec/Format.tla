------------------------------- MODULE Format -------------------------------
(* Numbers as texts with grouped integer digits.                             *)
EXTENDS Float

\* The digits of an integer part with a separator between groups of three.
Group(t, s) == FoldLeft(LAMBDA r, i : IF i # 1 /\ (Len(t) - i) % 3 = 2 THEN r \o <<s, t[i]>> ELSE Append(r, t[i]), <<>>, [i \in 1 .. Len(t) |-> i])
IntText(a, s) == (IF a.n THEN <<45>> ELSE <<>>) \o Group(MDec(a.m), s)
FixedText(d, p, point, s) ==
    With(FixedParts(d, p), LAMBDA f : f.sign \o Group(f.int, s) \o (IF p > 0 THEN <<point>> \o f.frac ELSE <<>>))
Special(d) == IF d.k = "nan" THEN <<78, 97, 78>> ELSE IF d.n THEN <<45, 73, 110, 102>> ELSE <<43, 73, 110, 102>>

\* Taking the separators out again.
Ungroup(t, s) == SelectSeq(t, LAMBDA c : c # s)
=============================================================================
