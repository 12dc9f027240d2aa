------------------------------- MODULE Signal -------------------------------
(* What describes a measurement: the kind of signal, the signal reference,   *)
(* the state flags, and the compact form measurements have on the wire.      *)
EXTENDS Ticks, Text

\* Kinds of signals, by number from 0: name, acronym, signal type.
Kinds == << <<"Angle", "PA", "PHA">>, <<"Magnitude", "PM", "PHM">>, <<"Frequency", "FQ", "FREQ">>, <<"DfDt", "DF", "DFDT">>,
            <<"Status", "SF", "FLAG">>, <<"Digital", "DV", "DIGI">>, <<"Analog", "AV", "ALOG">>, <<"Calculation", "CV", "CALC">>,
            <<"Statistic", "ST", "STAT">>, <<"Alarm", "AL", "ALRM">>, <<"Quality", "QF", "QUAL">> >>
Unknown == Len(Kinds)
KindName(k) == IF k < Unknown THEN T(Kinds[k + 1][1]) ELSE IF k = Unknown THEN T("Unknown") ELSE <<>>
Acronym(k) == IF k < Unknown THEN T(Kinds[k + 1][2]) ELSE T("??")
\* The type of a signal, for a phasor with its type: V, otherwise I.
SignalType(k, ph) == IF k >= Unknown THEN T("NULL")
                     ELSE IF k <= 1 THEN (IF ph \in {86, 118} THEN T("V") ELSE T("I")) \o T(Kinds[k + 1][3]) ELSE T(Kinds[k + 1][3])
KindOf(a) == LET u == Upper(Trim(a))
                 hit == {k \in 1 .. Unknown : T(Kinds[k][2]) = u}
             IN IF hit = {} THEN Unknown ELSE (CHOOSE k \in hit : TRUE) - 1

\* A signal reference is SOURCE-KKn: the source, which may hold dashes, the acronym of the kind and a position.
Dashes(r) == {i \in DOMAIN r : r[i] = 45}
LastDash(r) == CHOOSE i \in Dashes(r) : \A j \in Dashes(r) : j <= i
Source(r) == SubSeq(r, 1, LastDash(r) - 1)
Type(r) == SubSeq(r, LastDash(r) + 1, Len(r))
WellFormed(r) == Dashes(r) # {} /\ LET t == Type(r) IN Len(t) >= 2 /\ KindOf(SubSeq(t, 1, 2)) # Unknown /\ (Len(t) = 2 \/ (Len(t) <= 8 /\ Digits(SubSeq(t, 3, Len(t)))))
Reference(r) == [source |-> Source(r), kind |-> KindOf(SubSeq(Type(r), 1, 2)),
                 position |-> IF Len(Type(r)) = 2 THEN 0 ELSE ToInt(Of(SubSeq(Type(r), 3, Len(Type(r)))))]

\* State flags by bit.
FlagNames == <<"BadData", "SuspectData", "OverRangeError", "UnderRangeError", "AlarmHigh", "AlarmLow", "WarningHigh", "WarningLow", "FlatlineAlarm", "ComparisonAlarm",
               "ROCAlarm", "ReceivedAsBad", "CalculatedValue", "CalculationError", "CalculationWarning", "ReservedQualityFlag", "BadTime", "SuspectTime", "LateTimeAlarm",
               "FutureTimeAlarm", "UpSampled", "DownSampled", "DiscardedValue", "ReservedTimeFlag", "UserDefinedFlag1", "UserDefinedFlag2", "UserDefinedFlag3",
               "UserDefinedFlag4", "UserDefinedFlag5", "SystemError", "SystemWarning", "MeasurementError">>
FlagText(bits) == IF bits = {} THEN T("Normal")
                  ELSE FoldLeft(LAMBDA r, i : IF i - 1 \notin bits THEN r ELSE (IF r = <<>> THEN r ELSE Append(r, 44)) \o T(FlagNames[i]), <<>>, [i \in 1 .. 32 |-> i])

\* The compact form has one bit for each group of state flags; bit 6: the time is an offset, bit 7: from the second base time.
Groups == <<2 .. 7, {0, 1, 8, 9, 10, 11, 13, 14, 15}, (16 .. 21) \cup {23}, 29 .. 31, {12}, {22}>>
Group(bits) == {g - 1 : g \in {h \in DOMAIN Groups : bits \cap Groups[h] # {}}}
Spread(c) == UNION {Groups[g] : g \in {h \in DOMAIN Groups : h - 1 \in c}}
ByteOf(c) == FoldLeft(LAMBDA r, i : r + (IF i \in c THEN 2 ^ i ELSE 0), 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)
BitsOf(b) == {i \in 0 .. 7 : (b \div 2 ^ i) % 2 = 1}

\* When the time is sent: in full, or when it lies after the base time within reach, as an offset.
PerMs == I(10000)
Offset(o, v) == o.time /\ ~IsZero(o.base) /\ ~o.base.n /\ Lt(o.base, v)
                /\ IF o.ms THEN Lt(Quo(Sub(v, o.base), PerMs), I(65535)) ELSE Lt(Sub(v, o.base), Sub(P2[32], I(1)))
LengthOf(o, v) == 9 + (IF ~o.time THEN 0 ELSE IF ~Offset(o, v) THEN 8 ELSE IF o.ms THEN 2 ELSE 4)
\* What the receiver gets.
Received(o, s) == IF ~o.time THEN Int0
                  ELSE IF ~Offset(o, s.v) THEN Join(s)
                  ELSE IF o.ms THEN Add(o.base, Mul(Quo(Sub(s.v, o.base), PerMs), PerMs)) ELSE s.v
=============================================================================
