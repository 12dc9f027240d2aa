-------------------------------- MODULE Tssc --------------------------------
(* The time-series special compression of data packets: what a stream of     *)
(* compressed packets stands for.  A measurement is written as code words    *)
(* and operands; code words use per-point variable-length bit codes that     *)
(* adapt to the codes seen; operands are relative to what was sent before.   *)
EXTENDS Wire

\* The result of Op for the value of e, which is computed once.
Let(e, Op(_)) == CHOOSE y \in {Op(x) : x \in {e}} : TRUE

(* Code words *)
EndOfStream == 0
\* 1..7: next point identifier, xor of 4, 8, 12, 16, 20, 24 or 32 bits
\* 8..11, 12..15: time plus / minus one of the four smallest differences seen
Timestamp2 == 16
TimeXor7Bit == 17
StateFlags2 == 18
StateFlags7Bit32 == 19
\* 20..22: one of the last three values; 23: zero; 24..31: xor of 4..32 bits
FirstTime == 8
FirstFlags == 18
FirstValue == 20

NewPoint(next) ==
    [next |-> next, f1 |-> <<0, 0>>, f2 |-> <<0, 0>>, v1 |-> <<0, 0>>, v2 |-> <<0, 0>>, v3 |-> <<0, 0>>,
     stats |-> Zeros(32), sent |-> 0, mode |-> 4, c1 |-> 20, c2 |-> 21, c3 |-> 22, stage |-> 0]

NoPoint == <<-1, -1>>

NewDecoder ==
    [t1 |-> LZero(4), t2 |-> LZero(4), d |-> [i \in 1 .. 4 |-> LMax(4)],
     last |-> NoPoint, pts |-> NoPoint :> NewPoint(<<0, 0>>)]

(* ------- adaptation of the bit codes -------------------------------------- *)
\* The three most frequent codes, earlier ones first among equals.
Top3(stats) ==
    FoldLeft(LAMBDA a, i :
        LET n == stats[i] IN
        IF n > a.n3
        THEN IF n > a.n1 THEN [c1 |-> i - 1, n1 |-> n, c2 |-> a.c1, n2 |-> a.n1, c3 |-> a.c2, n3 |-> a.n2]
             ELSE IF n > a.n2 THEN [a EXCEPT !.c2 = i - 1, !.n2 = n, !.c3 = a.c2, !.n3 = a.n2]
             ELSE [a EXCEPT !.c3 = i - 1, !.n3 = n]
        ELSE a,
        [c1 |-> 0, n1 |-> 0, c2 |-> 1, n2 |-> 0, c3 |-> 2, n3 |-> 0], [i \in 1 .. 32 |-> i])

Adapt(p) ==
    LET t == Top3(p.stats)
        total == FoldLeft(LAMBDA a, x : a + x, 0, p.stats)
        s1 == total * 5
        s2 == t.n1 + (total - t.n1) * 6
        s3 == t.n1 + t.n2 * 2 + (total - t.n1 - t.n2) * 7
        s4 == t.n1 + t.n2 * 2 + t.n3 * 3 + (total - t.n1 - t.n2 - t.n3) * 8
        q == [p EXCEPT !.stats = Zeros(32), !.sent = 0]
    IN IF s1 <= s2 /\ s1 <= s3 /\ s1 <= s4 THEN [q EXCEPT !.mode = 1]
       ELSE IF s2 <= s3 /\ s2 <= s4 THEN [q EXCEPT !.mode = 2, !.c1 = t.c1]
       ELSE IF s3 <= s4 THEN [q EXCEPT !.mode = 3, !.c1 = t.c1, !.c2 = t.c2]
       ELSE [q EXCEPT !.mode = 4, !.c1 = t.c1, !.c2 = t.c2, !.c3 = t.c3]

Count(p, code) ==
    Let([p EXCEPT !.stats[code + 1] = @ + 1, !.sent = @ + 1], LAMBDA q :
       IF q.stage = 0 /\ q.sent > 5 THEN Adapt([q EXCEPT !.stage = 1])
       ELSE IF q.stage = 1 /\ q.sent > 20 THEN Adapt([q EXCEPT !.stage = 2])
       ELSE IF q.stage = 2 /\ q.sent > 100 THEN Adapt(q)
       ELSE q)

(* ------- reading ----------------------------------------------------------- *)
(* Cursor: p whole bytes taken, the last n bits of v not used yet.             *)
Start == [p |-> 0, n |-> 0, v |-> 0]
ByteAt(D, i) == IF i < Len(D) THEN D[i + 1] ELSE 0

ReadBit(D, c) ==
    IF c.n = 0 THEN LET v == ByteAt(D, c.p) IN [b |-> v \div 128, c |-> [p |-> c.p + 1, n |-> 7, v |-> v % 128]]
    ELSE [b |-> c.v \div 2 ^ (c.n - 1), c |-> [p |-> c.p, n |-> c.n - 1, v |-> c.v % 2 ^ (c.n - 1)]]

ReadBits(D, c, k) ==
    FoldLeft(LAMBDA a, i : LET r == ReadBit(D, a.c) IN [b |-> a.b * 2 + r.b, c |-> r.c], [b |-> 0, c |-> c], [i \in 1 .. k |-> i])

\* A code: as many one-bit prefixes as the mode has, or the five bits of the code word.
ReadPrefixed(D, p, c) ==
    IF p.mode = 1 THEN ReadBits(D, c, 5)
    ELSE Let(ReadBit(D, c), LAMBDA r1 :
         IF r1.b = 1 THEN [b |-> p.c1, c |-> r1.c]
         ELSE IF p.mode = 2 THEN ReadBits(D, r1.c, 5)
         ELSE Let(ReadBit(D, r1.c), LAMBDA r2 :
              IF r2.b = 1 THEN [b |-> p.c2, c |-> r2.c]
              ELSE IF p.mode = 3 THEN ReadBits(D, r2.c, 5)
              ELSE Let(ReadBit(D, r2.c), LAMBDA r3 :
                   IF r3.b = 1 THEN [b |-> p.c3, c |-> r3.c] ELSE ReadBits(D, r3.c, 5))))
ReadCode(D, p, c) == Let(ReadPrefixed(D, p, c), LAMBDA r : [code |-> r.b, c |-> r.c, pt |-> Count(p, r.b)])

\* An operand of 4 k bits as limbs <<hi, lo>>: when k is odd the low four bits come from the bit
\* stream; whole bytes follow, least significant first.
Operand32(D, c, k) ==
    Let(IF k % 2 = 1 THEN ReadBits(D, c, 4) ELSE [b |-> 0, c |-> c], LAMBDA r :
    LET odd == k % 2 = 1
        n == k \div 2
        b == [i \in 1 .. 4 |-> IF i <= n THEN ByteAt(D, r.c.p + i - 1) ELSE 0]
        c2 == [r.c EXCEPT !.p = @ + n]
        full == <<b[4] * 256 + b[3], b[2] * 256 + b[1]>>
    IN [x |-> IF ~odd THEN full
              ELSE <<(full[1] * 16 + full[2] \div 4096) % 65536, ((full[2] % 4096) * 16) + r.b>>,
        c |-> c2])

\* 7 bits per byte, low bits first; the last byte that can occur has all its 8 bits.
Operand7(D, c, max, nlimbs) ==
    LET len == LET s == {k \in 1 .. max : ByteAt(D, c.p + k - 1) < 128} IN IF s = {} THEN max ELSE CHOOSE k \in s : \A j \in s : k <= j
        BitOf(i) ==  \* bit i of the number (from 0, least significant)
            LET k == IF i \div 7 < max - 1 THEN i \div 7 ELSE max - 1
                sh == i - 7 * k
            IN IF k >= len \/ sh > 7 \/ (sh = 7 /\ k < max - 1) THEN 0 ELSE (ByteAt(D, c.p + k) \div 2 ^ sh) % 2
        Limb(j) == FoldLeft(LAMBDA a, i : a * 2 + BitOf(16 * (nlimbs - j) + 16 - i), 0, [i \in 1 .. 16 |-> i])
    IN [x |-> [j \in 1 .. nlimbs |-> Limb(j)], c |-> [c EXCEPT !.p = @ + len]]

(* ------- one measurement ---------------------------------------------------- *)
\* The four smallest time differences seen.
Learn(d, x) ==
    IF ~(LLess(x, d[4]) /\ x # d[1] /\ x # d[2] /\ x # d[3]) THEN d
    ELSE IF LLess(x, d[1]) THEN <<x, d[1], d[2], d[3]>>
    ELSE IF LLess(x, d[2]) THEN <<d[1], x, d[2], d[3]>>
    ELSE IF LLess(x, d[3]) THEN <<d[1], d[2], x, d[3]>>
    ELSE <<d[1], d[2], d[3], x>>

XorBits(code, first) == <<1, 2, 3, 4, 5, 6, 7, 8>>[code - first + 1]

\* Result: kind "end" (no more), "bad" (cannot be), or "m" (a measurement).
Bad(s, c) == [k |-> "bad", s |-> s, c |-> c]

\* The four parts of a measurement are read one after the other.  a.c is the cursor, a.code the
\* code word that says what follows, a.p the record of the previous point, whose codes are used.
ReadID(D, s, a) ==
    IF a.code \notin 1 .. 7 THEN a
    ELSE Let(Operand32(D, a.c, IF a.code = 7 THEN 8 ELSE a.code), LAMBDA o :
         Let([a.p EXCEPT !.next = LXor(o.x, @)], LAMBDA p :
         Let(ReadCode(D, p, o.c), LAMBDA r : [code |-> IF r.code < FirstTime THEN -1 ELSE r.code, c |-> r.c, p |-> r.pt])))

ReadTime(D, s, a) ==
    IF a.code > TimeXor7Bit THEN [code |-> a.code, c |-> a.c, p |-> a.p, t |-> s.t1, d |-> s.d, t2 |-> s.t2]
    ELSE Let(IF a.code = TimeXor7Bit THEN Operand7(D, a.c, 9, 4) ELSE [x |-> <<>>, c |-> a.c], LAMBDA o :
         Let(CASE a.code \in 8 .. 11 -> LAdd(s.t1, s.d[a.code - 7])
               [] a.code \in 12 .. 15 -> LSub(s.t1, s.d[a.code - 11])
               [] a.code = Timestamp2 -> s.t2
               [] OTHER -> LXor(s.t1, o.x), LAMBDA t :
         Let(ReadCode(D, a.p, o.c), LAMBDA r :
             [code |-> IF r.code < FirstFlags THEN -1 ELSE r.code, c |-> r.c, p |-> r.pt, t |-> t, d |-> Learn(s.d, LAbs(LSub(s.t1, t))), t2 |-> s.t1])))

\* own: the record of the measurement's point (the previous point's, if it is the same point)
ReadFlags(D, own, a) ==
    IF a.code > StateFlags7Bit32 THEN [code |-> a.code, c |-> a.c, p |-> a.p, f1 |-> own.f1, f2 |-> own.f2]
    ELSE Let(IF a.code = StateFlags7Bit32 THEN Operand7(D, a.c, 5, 2) ELSE [x |-> own.f2, c |-> a.c], LAMBDA o :
         Let(ReadCode(D, a.p, o.c), LAMBDA r :
             [code |-> IF r.code < FirstValue THEN -1 ELSE r.code, c |-> r.c, p |-> r.pt, f1 |-> o.x, f2 |-> own.f1]))

ReadValue(D, own, a) ==
    CASE a.code = 20 -> [c |-> a.c, v1 |-> own.v1, v2 |-> own.v2, v3 |-> own.v3]
      [] a.code = 21 -> [c |-> a.c, v1 |-> own.v2, v2 |-> own.v1, v3 |-> own.v3]
      [] a.code = 22 -> [c |-> a.c, v1 |-> own.v3, v2 |-> own.v1, v3 |-> own.v2]
      [] a.code = 23 -> [c |-> a.c, v1 |-> <<0, 0>>, v2 |-> own.v1, v3 |-> own.v2]
      [] OTHER -> Let(Operand32(D, a.c, a.code - 23), LAMBDA o : [c |-> o.c, v1 |-> LXor(o.x, own.v1), v2 |-> own.v1, v3 |-> own.v2])

Own(s, id, p) == IF id = s.last THEN p ELSE IF id \in DOMAIN s.pts THEN s.pts[id] ELSE NewPoint(LAdd(id, <<0, 1>>))

ReadOne(D, s, c) ==
    IF c.p = Len(D) /\ c.n = 0 THEN [k |-> "end", s |-> s, c |-> c]
    ELSE
    Let(ReadCode(D, s.pts[s.last], c), LAMBDA r :
    IF r.code = EndOfStream
    THEN IF r.c.p > Len(D) THEN Bad(s, c) ELSE [k |-> "end", s |-> [s EXCEPT !.pts[s.last] = r.pt], c |-> r.c]
    ELSE
    Let(ReadID(D, s, [code |-> r.code, c |-> r.c, p |-> r.pt]), LAMBDA a :
    IF a.code = -1 THEN Bad(s, c) ELSE
    Let(ReadTime(D, s, a), LAMBDA b :
    IF b.code = -1 THEN Bad(s, c) ELSE
    Let(ReadFlags(D, Own(s, a.p.next, b.p), b), LAMBDA f :
    IF f.code = -1 THEN Bad(s, c) ELSE
    Let(Own(s, a.p.next, f.p), LAMBDA own :
    Let(ReadValue(D, own, f), LAMBDA v :
    Let([own EXCEPT !.f1 = f.f1, !.f2 = f.f2, !.v1 = v.v1, !.v2 = v.v2, !.v3 = v.v3], LAMBDA q :
    IF v.c.p > Len(D) THEN Bad(s, c)
    ELSE [k |-> "m", c |-> v.c,
          s |-> [t1 |-> b.t, t2 |-> b.t2, d |-> b.d, last |-> a.p.next,
                 pts |-> [x \in DOMAIN s.pts \cup {a.p.next} |-> IF x = a.p.next THEN q ELSE IF x = s.last THEN f.p ELSE s.pts[x]]],
          m |-> [i |-> LBytes(a.p.next), t |-> LBytes(b.t), f |-> LBytes(f.f1), v |-> LBytes(v.v1)]])))))))

\* The measurements of one packet; at most n of them.
DecodePacket(s, D, n) ==
    FoldLeft(LAMBDA a, k :
        IF a.k # "m" THEN a
        ELSE Let(ReadOne(D, a.s, a.c), LAMBDA r :
                IF r.k = "m" THEN (IF Len(a.ms) = n THEN [a EXCEPT !.k = "bad"] ELSE [k |-> "m", s |-> r.s, c |-> r.c, ms |-> Append(a.ms, r.m)])
                ELSE [k |-> r.k, s |-> r.s, c |-> r.c, ms |-> a.ms]),
        [k |-> "m", s |-> s, c |-> Start, ms |-> <<>>], [k \in 1 .. n + 1 |-> k])
=============================================================================
