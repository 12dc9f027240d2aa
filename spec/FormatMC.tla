------------------------------ MODULE FormatMC ------------------------------
(* Digits are appended to a number one at a time; grouping stays right.      *)
EXTENDS Format
CONSTANT MaxLen
VARIABLES t
Sep == 44
Init == t \in {<<d>> : d \in 49 .. 50}
Next == Len(t) < MaxLen /\ \E d \in {48, 57} : t' = Append(t, d)
Spec == Init /\ [][Next]_t
GroupOK == LET g == Group(t, Sep) IN
           /\ Ungroup(g, Sep) = t
           /\ \A i \in DOMAIN g : (g[i] = Sep) = ((Len(g) - i) % 4 = 3 /\ i > 1)
           /\ Len(g) = Len(t) + (Len(t) - 1) \div 3
           /\ Dec(Of(t)) = t
\* Doubles made of the same digits print exactly.
FloatOK == Len(t) <= 15 => /\ FixedText(OfInt(Of(t)), 0, 46, Sep) = Group(t, Sep)
                           /\ FixedText(FDiv(OfInt(Of(t)), OfInt(I(2))), 1, 46, Sep)
                              = Group(MDec(Quo(Of(t), I(2)).m), Sep) \o <<46, IF Odd(Of(t)) THEN 53 ELSE 48>>
                           /\ FMul(FDiv(OfInt(Of(t)), OfInt(I(8))), OfInt(I(8))) = OfInt(Of(t))
                           /\ IsSqrt(OfInt(Of(t)), FMul(OfInt(Of(t)), OfInt(Of(t))))
                           /\ FAdd(OfInt(Of(t)), FNeg(OfInt(Of(t)))) = Zero(FALSE)
=============================================================================
