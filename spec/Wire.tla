-------------------------------- MODULE Wire --------------------------------
(* Bytes and numbers.  TLC's integers have 32 bits: wider values are kept as *)
(* sequences of bytes (most significant first) or of 16-bit limbs.           *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

Cut(b, off, n) == SubSeq(b, off + 1, off + n)      \* n bytes at offset off (from 0)
From(b, off) == SubSeq(b, off + 1, Len(b))
Num(b) == FoldLeft(LAMBDA a, x : a * 256 + x, 0, b)  \* must fit
Fits(b) == IF Len(b) < 4 THEN TRUE ELSE b[Len(b) - 3] < 64 /\ \A i \in 1 .. Len(b) - 4 : b[i] = 0
Bit(x, m) == (x \div m) % 2 = 1
Zeros(n) == [i \in 1 .. n |-> 0]
Bytes4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Widen(b) == Zeros(8 - Len(b)) \o b

\* Sum of two numbers of the same number of bytes, modulo their range.
AddBytes(a, b) ==
    LET n == Len(a)
        r == FoldLeft(LAMBDA x, i : LET s == a[n + 1 - i] + b[n + 1 - i] + x.c IN [c |-> s \div 256, r |-> <<s % 256>> \o x.r],
                      [c |-> 0, r |-> <<>>], [i \in 1 .. n |-> i])
    IN r.r

Positive(b) == b[1] < 128 /\ \E i \in DOMAIN b : b[i] # 0

\* A GUID in the order of its text form, from the other byte order of its first three fields.
Swap(g) == <<g[4], g[3], g[2], g[1], g[6], g[5], g[8], g[7]>> \o SubSeq(g, 9, 16)

(* ------- 16-bit limbs, most significant first ---------------------------- *)
LZero(n) == Zeros(n)
LXor(a, b) == [i \in DOMAIN a |-> a[i] ^^ b[i]]
LAdd(a, b) ==
    LET n == Len(a)
        r == FoldLeft(LAMBDA x, i : LET s == a[n + 1 - i] + b[n + 1 - i] + x.c IN [c |-> s \div 65536, r |-> <<s % 65536>> \o x.r],
                      [c |-> 0, r |-> <<>>], [i \in 1 .. n |-> i])
    IN r.r
LNot(a) == [i \in DOMAIN a |-> 65535 - a[i]]
LOne(n) == Zeros(n - 1) \o <<1>>
LNeg(a) == LAdd(LNot(a), LOne(Len(a)))
LSub(a, b) == LAdd(a, LNeg(b))
LNegative(a) == a[1] >= 32768
LAbs(a) == IF LNegative(a) THEN LNeg(a) ELSE a
\* signed comparison
LLess(a, b) ==
    IF LNegative(a) # LNegative(b) THEN LNegative(a)
    ELSE LET d == {i \in DOMAIN a : a[i] # b[i]}
         IN IF d = {} THEN FALSE ELSE LET i == CHOOSE i \in d : \A j \in d : i <= j IN a[i] < b[i]
LMax(n) == <<32767>> \o [i \in 1 .. n - 1 |-> 65535]
LBytes(a) == FoldLeft(LAMBDA r, x : r \o <<x \div 256, x % 256>>, <<>>, a)
Limbs(b) == [i \in 1 .. Len(b) \div 2 |-> b[2 * i - 1] * 256 + b[2 * i]]
=============================================================================
