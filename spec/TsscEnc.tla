------------------------------ MODULE TsscEnc -------------------------------
(* The publisher's side of TSSC: for each part of a measurement, the forms   *)
(* in which it can be written, and the writing.                              *)
EXTENDS Tssc

CONSTANT AllForms         \* every valid form, or only the shortest one

(* ------- writing ------------------------------------------------------------ *)
\* w: bytes written, position of the byte being filled with bits, free bits in it
NewWriter == [buf |-> <<>>, at |-> 0, n |-> 0]

PutBit(x, b) ==
    IF x.n = 0 THEN [buf |-> Append(x.buf, b * 128), at |-> Len(x.buf) + 1, n |-> 7]
    ELSE [x EXCEPT !.buf[x.at] = @ + b * 2 ^ (x.n - 1), !.n = @ - 1]
PutBits(x, v, k) == FoldLeft(LAMBDA a, i : PutBit(a, (v \div 2 ^ (k - i)) % 2), x, [i \in 1 .. k |-> i])
PutByte(x, b) == [x EXCEPT !.buf = Append(@, b)]

\* The point whose codes are used is s.pts[s.last]; a = [s, w].
PutCode(a, c) ==
    Let(a.s.pts[a.s.last], LAMBDA p :
        [s |-> [a.s EXCEPT !.pts[a.s.last] = Count(p, c)],
         w |-> CASE p.mode > 1 /\ c = p.c1 -> PutBits(a.w, 1, 1)
                 [] p.mode > 2 /\ c = p.c2 -> PutBits(a.w, 1, 2)
                 [] p.mode > 3 /\ c = p.c3 -> PutBits(a.w, 1, 3)
                 [] OTHER -> PutBits(a.w, c, 4 + p.mode)])

Low4(x) == x[2] % 16
Shift4(x) == <<x[1] \div 16, ((x[1] % 16) * 4096) + (x[2] \div 16)>>
PutXor(a, x, k) ==
    LET odd == k % 2 = 1
        w1 == IF odd THEN PutBits(a.w, Low4(x), 4) ELSE a.w
        y == IF odd THEN Shift4(x) ELSE x
        bs == <<y[2] % 256, y[2] \div 256, y[1] % 256, y[1] \div 256>>
    IN [a EXCEPT !.w = FoldLeft(LAMBDA b, i : PutByte(b, bs[i]), w1, [i \in 1 .. k \div 2 |-> i])]
Nibbles(x) == CHOOSE k \in 1 .. 8 : /\ k = 8 \/ (IF k < 4 THEN x[1] = 0 /\ x[2] < 16 ^ k ELSE IF k = 4 THEN x[1] = 0 ELSE x[1] < 16 ^ (k - 4))
                                    /\ k = 1 \/ ~(IF k - 1 < 4 THEN x[1] = 0 /\ x[2] < 16 ^ (k - 1) ELSE IF k - 1 = 4 THEN x[1] = 0 ELSE x[1] < 16 ^ (k - 5))

\* bit i (from 0) of limbs
BitAt(x, i) == (x[Len(x) - i \div 16] \div 2 ^ (i % 16)) % 2
Group(x, k, len) == FoldLeft(LAMBDA a, i : (a * 2) + (LET j == 7 * k + len - i IN IF j >= 16 * Len(x) THEN 0 ELSE BitAt(x, j)), 0, [i \in 1 .. len |-> i])
Put7(a, x, max) ==
    LET need == CHOOSE k \in 1 .. max : /\ k = max \/ \A i \in 7 * k .. 16 * Len(x) - 1 : BitAt(x, i) = 0
                                        /\ k = 1 \/ ~(\A i \in 7 * (k - 1) .. 16 * Len(x) - 1 : BitAt(x, i) = 0)
        B(k) == IF k = max - 1 THEN Group(x, k, 8) ELSE Group(x, k, 7) + IF k < need - 1 THEN 128 ELSE 0
    IN [a EXCEPT !.w = FoldLeft(LAMBDA b, i : PutByte(b, B(i - 1)), a.w, [i \in 1 .. need |-> i])]

\* The forms in which each part can be written; "" leaves it out.
XorForms(x) == IF AllForms THEN Nibbles(x) .. 8 ELSE {Nibbles(x)}
IDForms(s, m) == LET p == s.pts[s.last] IN
    (IF p.next = m.i THEN {0} ELSE {}) \cup
    (IF p.next # m.i \/ AllForms THEN {IF k >= 7 THEN 7 ELSE k : k \in XorForms(LXor(p.next, m.i))} ELSE {})
TimeForms(s, m) ==
    LET can == (IF s.t1 = m.t THEN {0} ELSE {}) \cup {8 + k : k \in {k \in 0 .. 3 : LAdd(s.t1, s.d[k + 1]) = m.t}}
               \cup {12 + k : k \in {k \in 0 .. 3 : LSub(s.t1, s.d[k + 1]) = m.t}} \cup (IF s.t2 = m.t THEN {16} ELSE {})
    IN IF AllForms THEN can \cup {17} ELSE IF can = {} THEN {17} ELSE {CHOOSE c \in can : \A d \in can : c <= d}
OwnOf(s, m) == IF m.i \in DOMAIN s.pts THEN s.pts[m.i] ELSE NewPoint(LAdd(m.i, <<0, 1>>))
FlagForms(s, m) ==
    LET o == OwnOf(s, m)
        can == (IF o.f1 = m.f THEN {0} ELSE {}) \cup (IF o.f2 = m.f THEN {18} ELSE {})
    IN IF AllForms THEN can \cup {19} ELSE IF can = {} THEN {19} ELSE {CHOOSE c \in can : \A d \in can : c <= d}
ValueForms(s, m) ==
    LET o == OwnOf(s, m)
        can == (IF o.v1 = m.v THEN {20} ELSE {}) \cup (IF o.v2 = m.v THEN {21} ELSE {}) \cup (IF o.v3 = m.v THEN {22} ELSE {})
               \cup (IF m.v = <<0, 0>> THEN {23} ELSE {})
    IN (IF AllForms THEN can ELSE IF can = {} THEN {} ELSE {CHOOSE c \in can : \A d \in can : c <= d})
       \cup (IF AllForms \/ can = {} THEN {23 + k : k \in XorForms(LXor(o.v1, m.v))} ELSE {})

PutID(a, m, f) == IF f = 0 THEN a
    ELSE Let(PutXor(PutCode(a, f), LXor(a.s.pts[a.s.last].next, m.i), IF f = 7 THEN 8 ELSE f), LAMBDA b : [b EXCEPT !.s.pts[b.s.last].next = m.i])
PutTime(a, m, f) == IF f = 0 THEN a
    ELSE Let(PutCode(a, f), LAMBDA b :
         Let(IF f = 17 THEN Put7(b, LXor(a.s.t1, m.t), 9) ELSE b, LAMBDA c :
             [c EXCEPT !.s.d = Learn(c.s.d, LAbs(LSub(c.s.t1, m.t))), !.s.t2 = c.s.t1, !.s.t1 = m.t]))
PutFlags(a, m, f) == IF f = 0 THEN a
    ELSE Let(PutCode(a, f), LAMBDA b :
         Let(IF f = 19 THEN Put7(b, m.f, 5) ELSE b, LAMBDA c : [c EXCEPT !.s.pts[m.i].f2 = c.s.pts[m.i].f1, !.s.pts[m.i].f1 = m.f]))
PutValue(a, m, f) ==
    Let(PutCode(a, f), LAMBDA b :
    Let(IF f > 23 THEN PutXor(b, LXor(a.s.pts[m.i].v1, m.v), f - 23) ELSE b, LAMBDA c :
    Let(c.s.pts[m.i], LAMBDA o :
        [c EXCEPT !.s.last = m.i,
                  !.s.pts[m.i] = CASE f = 20 -> o
                                   [] f = 21 -> [o EXCEPT !.v1 = m.v, !.v2 = o.v1]
                                   [] OTHER -> [o EXCEPT !.v1 = m.v, !.v2 = o.v1, !.v3 = o.v2]])))

Known1(s, m) == [s EXCEPT !.pts = [x \in DOMAIN s.pts \cup {m.i} |-> IF x \in DOMAIN s.pts THEN s.pts[x] ELSE NewPoint(LAdd(m.i, <<0, 1>>))]]

Put(a, m, fi, ft, ff, fv) == PutValue(PutFlags(PutTime(PutID([a EXCEPT !.s = Known1(a.s, m)], m, fi), m, ft), m, ff), m, fv)

Finished(s, x) == IF x.n = 0 THEN [s |-> s, w |-> x] ELSE PutCode([s |-> s, w |-> x], EndOfStream)
=============================================================================
