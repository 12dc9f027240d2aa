------------------------------- MODULE TsscMC -------------------------------
(* The round trip through TSSC: whichever valid form the publisher chooses   *)
(* for each part of a measurement, decoding gives the measurements back and  *)
(* leaves both sides in the same state.                                      *)
EXTENDS TsscEnc, Json, IOUtils, FiniteSets

CONSTANTS Ids, Times, Flags, Values, MaxPackets, MaxPerPacket

VARIABLES enc, dec, w, ms, sent, hist

mcvars == <<enc, dec, w, ms, sent, hist>>

(* ------- the publisher -------------------------------------------------------- *)
MCInit == enc = NewDecoder /\ dec = NewDecoder /\ w = NewWriter /\ ms = <<>> /\ sent = 0 /\ hist = <<>>

Add == /\ Len(ms) < MaxPerPacket /\ sent < MaxPackets
       /\ \E i \in Ids, t \in Times, f \in Flags, v \in Values :
            LET m == [i |-> i, t |-> LAdd(enc.t1, t), f |-> f, v |-> v] IN
            \E fi \in IDForms(enc, m), ft \in TimeForms(enc, m), ff \in FlagForms(enc, m), fv \in ValueForms(enc, m) :
            \E a \in {Put([s |-> enc, w |-> w], m, fi, ft, ff, fv)} :
               enc' = a.s /\ w' = a.w /\ ms' = Append(ms, m)
       /\ UNCHANGED <<dec, sent, hist>>

\* The packet is ended, sent and decoded.
Send == /\ ms # <<>>
        /\ \E a \in {Finished(enc, w)} :
             \E r \in {DecodePacket(dec, a.w.buf, Len(ms))} :
               /\ enc' = a.s /\ w' = NewWriter /\ ms' = <<>> /\ sent' = sent + 1
               /\ dec' = r.s
               /\ Assert(r.k = "end" /\ r.ms = [j \in DOMAIN ms |-> [i |-> LBytes(ms[j].i), t |-> LBytes(ms[j].t), f |-> LBytes(ms[j].f), v |-> LBytes(ms[j].v)]],
                         <<"not decoded", ms, a.w, r>>)
               /\ hist' = Append(hist, [b |-> a.w.buf, m |-> [j \in DOMAIN ms |-> [i |-> LBytes(ms[j].i), t |-> LBytes(ms[j].t), f |-> LBytes(ms[j].f), v |-> LBytes(ms[j].v)]]])
               /\ IF sent + 1 = MaxPackets THEN PrintT("PLAN " \o ToJson(hist')) ELSE TRUE

MCNext == Add \/ Send

\* Both sides agree whenever everything written has been sent.
Agree == ms = <<>> => dec = enc
\* A mode that has a prefix for a code is never longer than the plain one by more than its prefixes.
ModesValid == \A x \in DOMAIN enc.pts : enc.pts[x].mode \in 1 .. 4

Ids1 == {<<0, 1>>, <<0, 2>>}
Times1 == {<<0, 0, 0, 0>>, <<0, 0, 0, 3>>}
Flags1 == {<<0, 0>>}
Values1 == {<<0, 0>>, <<16384, 1>>}
Ids2 == {<<0, 1>>, <<0, 4096>>, <<65535, 65535>>}
Times2 == {<<0, 0, 0, 0>>, <<0, 0, 5, 3>>, <<65535, 65535, 65535, 65533>>, <<34000, 1, 2, 3>>}
Flags2 == {<<0, 0>>, <<0, 200>>, <<57344, 1>>}
Values2 == {<<0, 0>>, <<16384, 1>>, <<49024, 7>>}
=============================================================================
