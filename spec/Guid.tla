-------------------------------- MODULE Guid --------------------------------
(* 128-bit identifiers as sequences of 16 bytes: their text and byte forms   *)
(* and their order.                                                          *)
EXTENDS Text

HexCode(d) == IF d < 10 THEN 48 + d ELSE 87 + d
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
LOCAL Hex2(b) == <<HexCode(b \div 16), HexCode(b % 16)>>
LOCAL Cat(q) == FoldLeft(LAMBDA r, x : r \o x, <<>>, q)
LOCAL HexOf(g, a, b) == Cat([i \in 1 .. b - a + 1 |-> Hex2(g[a + i - 1])])

\* 8-4-4-4-12 hexadecimal digits.
Plain(g) == HexOf(g, 1, 4) \o <<45>> \o HexOf(g, 5, 6) \o <<45>> \o HexOf(g, 7, 8) \o <<45>> \o HexOf(g, 9, 10) \o <<45>> \o HexOf(g, 11, 16)
TextOf(g) == <<123>> \o Plain(g) \o <<125>>

\* What a text means: <<>> if malformed, else <<guid>>.
LOCAL Digit32(t) == IF \A i \in DOMAIN t : HexVal(t[i]) >= 0
                    THEN <<[i \in 1 .. 16 |-> 16 * HexVal(t[2 * i - 1]) + HexVal(t[2 * i])]>> ELSE <<>>
LOCAL Dashed(t) == IF t[9] = 45 /\ t[14] = 45 /\ t[19] = 45 /\ t[24] = 45
                   THEN Digit32(SubSeq(t, 1, 8) \o SubSeq(t, 10, 13) \o SubSeq(t, 15, 18) \o SubSeq(t, 20, 23) \o SubSeq(t, 25, 36))
                   ELSE <<>>
Urn == T("urn:uuid:")
ParseOf(t) == CASE Len(t) = 32 -> Digit32(t)
                [] Len(t) = 36 -> Dashed(t)
                [] Len(t) = 38 -> Dashed(SubSeq(t, 2, 37))
                [] Len(t) = 45 -> IF Lower(SubSeq(t, 1, 9)) = Urn THEN Dashed(SubSeq(t, 10, 45)) ELSE <<>>
                [] OTHER -> <<>>
\* A text of 38 characters whose ends are not braces may be read or refused.
Lenient(t) == Len(t) = 38 /\ (t[1] # 123 \/ t[38] # 125)

\* Exchange of the byte order of the first three fields.
Swap(b) == <<b[4], b[3], b[2], b[1], b[6], b[5], b[8], b[7]>> \o SubSeq(b, 9, 16)
BytesOf(g, swap) == IF swap THEN Swap(g) ELSE g
FromBytes(b, swap) == IF Len(b) < 16 THEN <<>> ELSE <<BytesOf(SubSeq(b, 1, 16), swap)>>

\* Order: field by field, which is byte by byte.
Order(a, b) == IF a = b THEN 0
               ELSE LET i == CHOOSE k \in 1 .. 16 : a[k] # b[k] /\ \A j \in 1 .. k - 1 : a[j] = b[j]
                    IN IF a[i] < b[i] THEN -1 ELSE 1
=============================================================================
