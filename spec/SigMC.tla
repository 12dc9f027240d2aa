------------------------------- MODULE SigMC --------------------------------
(* Laws of Signal.tla: acronyms and references stand for one thing each, the *)
(* groups of flags are disjoint, and an offset reaches what it stands for.   *)
EXTENDS Signal

VARIABLE q
Sources == <<T(""), T("A"), T("A-PM1"), T("-"), T("PA"), T("GPA!X-Y")>>
Bases == <<Int0, I(1), I(-1), UnixBase, Sub(MaxTicks, I(70000))>>
Far == <<I(-1), Int0, I(1), I(9999), I(10000), I(655339999), I(655340000), I(655349999), I(655350000), I(655360000),
         Sub(P2[32], I(2)), Sub(P2[32], I(1)), P2[32]>>
Next == UNCHANGED q
Init == \/ \E k \in 0 .. Unknown, p \in {0, 1, 9, 10, 123456}, s \in DOMAIN Sources, low \in BOOLEAN, bare \in BOOLEAN : q = <<"ref", k, p, s, low, bare>>
        \/ \E c \in SUBSET (0 .. 7) : q = <<"byte", c>>
        \/ \E b \in 0 .. 31, a \in 0 .. 31 : q = <<"bits", a, b>>
        \/ \E b \in DOMAIN Bases, d \in DOMAIN Far, ms, time, leap \in BOOLEAN : q = <<"time", b, d, ms, time, leap>>
Spec == Init /\ [][Next]_q

Low(s) == [i \in DOMAIN s |-> IF s[i] \in 65 .. 90 THEN s[i] + 32 ELSE s[i]]
RefLaw == q[1] = "ref" => LET k == q[2]
                              a == IF q[5] THEN Low(Acronym(k)) ELSE Acronym(k)
                              r == Sources[q[4]] \o <<45>> \o a \o (IF q[6] THEN <<>> ELSE Dec(I(q[3])))
                          IN IF k = Unknown THEN KindOf(a) = Unknown /\ ~WellFormed(r)
                             ELSE /\ KindOf(a) = k /\ WellFormed(r)
                                  /\ Reference(r) = [source |-> Sources[q[4]], kind |-> k, position |-> IF q[6] THEN 0 ELSE q[3]]
ByteLaw == q[1] = "byte" => /\ BitsOf(ByteOf(q[2])) = q[2]
                            /\ Group(Spread(q[2])) = q[2] \cap (0 .. 5)
                            /\ Spread(Group(Spread(q[2]))) = Spread(q[2])
BitsLaw == q[1] = "bits" => LET f == {q[2], q[3]} \ (24 .. 28) IN f \subseteq Spread(Group(f)) /\ Group(f) = Group({q[2], q[3]})
TimeLaw == q[1] = "time" =>
    LET o == [time |-> q[5], ms |-> q[4], base |-> Bases[q[2]]]
        v == Add(o.base, Far[q[3]])
    IN ~v.n /\ Le(v, MaxTicks) =>
       LET s == Stamp(v, q[6], FALSE)
           r == Received(o, s)
       IN /\ o.time /\ ~Offset(o, v) => r = Join(s)
          /\ Offset(o, v) => Le(r, v) /\ Lt(Sub(v, r), IF o.ms THEN PerMs ELSE I(1)) /\ Lt(o.base, v)
          /\ Offset(o, v) => Lt(IF o.ms THEN Quo(Sub(v, o.base), PerMs) ELSE Sub(v, o.base), P2[IF o.ms THEN 16 ELSE 32])
          /\ LengthOf(o, v) \in {9, 11, 13, 17}
=============================================================================
