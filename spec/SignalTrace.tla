---------------------------- MODULE SignalTrace -----------------------------
(* Judges recorded descriptions of measurements.                             *)
EXTENDS Signal, CaseIO

SetOf(q) == {q[i] : i \in DOMAIN q}
\* [k: "kind", n, name, acr, type, ph, back]
KindWhy(c) == IF c.n <= Unknown /\ c.name # KindName(c.n) THEN <<"name", KindName(c.n)>>
              ELSE IF c.acr # Acronym(c.n) THEN <<"acronym", Acronym(c.n)>>
              ELSE IF c.type # SignalType(c.n, c.ph) THEN <<"type", SignalType(c.n, c.ph)>>
              ELSE IF c.back # (IF c.n < Unknown THEN c.n ELSE Unknown) THEN <<"back">> ELSE <<>>
\* [k: "acr", s, n]
AcrWhy(c) == IF c.n # KindOf(c.s) THEN <<"kind", KindOf(c.s)>> ELSE <<>>
\* [k: "ref", s, panic, source, kind, pos]
RefWhy(c) == IF c.panic THEN <<"panic">>
             ELSE IF WellFormed(c.s) THEN (IF [source |-> c.source, kind |-> c.kind, position |-> c.pos] = Reference(c.s) THEN <<>> ELSE <<"expected", Reference(c.s)>>)
             ELSE IF Dashes(c.s) = {} THEN (IF c.kind = Unknown THEN <<>> ELSE <<"not a reference">>)
             ELSE IF c.source # Source(c.s) THEN <<"source", Source(c.s)>>
             ELSE IF KindOf(SubSeq(Type(c.s), 1, IF Len(Type(c.s)) < 2 THEN Len(Type(c.s)) ELSE 2)) = Unknown /\ c.kind # Unknown THEN <<"kind">>
             ELSE <<>>
\* [k: "flags", bits, s]
FlagsWhy(c) == IF c.s = FlagText(SetOf(c.bits)) THEN <<>> ELSE <<"expected", FlagText(SetOf(c.bits))>>
\* [k: "byte", b, bits, back]
ByteWhy(c) == IF SetOf(c.bits) # Spread(BitsOf(c.b)) THEN <<"flags", Spread(BitsOf(c.b))>> ELSE IF c.back # c.b THEN <<"back">> ELSE <<>>
\* [k: "compact", time, ms, base (text), bi, bits, x (text), len, b, n, err, rbits, rx (text), same]
CompactWhy(c) ==
    LET o == [time |-> c.time, ms |-> c.ms, base |-> Of(c.base)] IN
    With(Split(Of(c.x)), LAMBDA s :
    LET bits == Group(SetOf(c.bits)) \cup (IF Offset(o, s.v) THEN {6} ELSE {}) \cup (IF c.bi = 1 THEN {7} ELSE {}) IN
    IF c.len # LengthOf(o, s.v) THEN <<"length", LengthOf(o, s.v)>>
    ELSE IF c.b # ByteOf(bits) THEN <<"flags", ByteOf(bits)>>
    ELSE IF c.err \/ c.n # c.len THEN <<"decoding">>
    ELSE IF SetOf(c.rbits) # Spread(bits) THEN <<"decoded flags", Spread(bits)>>
    ELSE IF Of(c.rx) # Received(o, s) THEN <<"time", Dec(Received(o, s))>>
    ELSE IF ~c.same THEN <<"value">> ELSE <<>>)
Why(c) == CASE c.k = "kind" -> KindWhy(c) [] c.k = "acr" -> AcrWhy(c) [] c.k = "ref" -> RefWhy(c) [] c.k = "flags" -> FlagsWhy(c)
            [] c.k = "byte" -> ByteWhy(c) [] c.k = "compact" -> CompactWhy(c)

TInit == CaseInit
TNext == Cur <= NumCases /\ \E w \in {Why(Cases[Cur])} : Judge(w = <<>>, w)
=============================================================================
