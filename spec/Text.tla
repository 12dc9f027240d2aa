-------------------------------- MODULE Text --------------------------------
(* Texts as sequences of character codes.                                    *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1 .. Len(Printable)} |->
             31 + CHOOSE i \in 1 .. Len(Printable) : SubSeq(Printable, i, i) = c]
\* The codes of a (printable) text.
T(s) == [i \in 1 .. Len(s) |-> CodeOf[SubSeq(s, i, i)]]

LowerCode(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
UpperCode(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Lower(t) == [i \in DOMAIN t |-> LowerCode(t[i])]
Upper(t) == [i \in DOMAIN t |-> UpperCode(t[i])]
IsSpace(c) == c \in {32, 9, 10, 11, 12, 13}
IsDigit(c) == c >= 48 /\ c <= 57
Digits(t) == t # <<>> /\ \A i \in DOMAIN t : IsDigit(t[i])

TrimLeft(t) == IF \A i \in DOMAIN t : IsSpace(t[i]) THEN <<>>
               ELSE SubSeq(t, CHOOSE i \in DOMAIN t : ~IsSpace(t[i]) /\ \A j \in 1 .. i - 1 : IsSpace(t[j]), Len(t))
TrimRight(t) == IF \A i \in DOMAIN t : IsSpace(t[i]) THEN <<>>
                ELSE SubSeq(t, 1, CHOOSE i \in DOMAIN t : ~IsSpace(t[i]) /\ \A j \in i + 1 .. Len(t) : IsSpace(t[j]))
Trim(t) == TrimRight(TrimLeft(t))

\* First position of x in t at or after from, or 0.
Find(t, x, from) == LET s == {i \in from .. Len(t) - Len(x) + 1 : SubSeq(t, i, i + Len(x) - 1) = x}
                    IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
=============================================================================
