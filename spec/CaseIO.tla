------------------------------- MODULE CaseIO -------------------------------
(* Reading cases recorded from the implementation and stepping through them  *)
(* in parallel lanes.  A module that extends this one defines, for a case c, *)
(* Good(c) and Explain(c) and uses CaseInit / CaseNext as its behaviour:     *)
(* TLC then judges every case and reports each rejected one.                 *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
NumCases == Len(Cases)
Lanes == atoi(IOEnv.LANES)

VARIABLES pos, lane
caseVars == <<pos, lane>>

CaseInit == /\ lane \in 0 .. Lanes - 1
            /\ pos = 0
            /\ IF lane = 0 THEN PrintT("CASES " \o ToString(NumCases)) ELSE TRUE

Cur == pos * Lanes + lane + 1

\* Judge(ok, why): accept the current case or report it, and go on.
Judge(ok, why) ==
    /\ IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToString(Cur) \o " " \o ToString(why))
    /\ pos' = pos + 1
    /\ UNCHANGED lane

\* Known findings that are listed in known_findings.txt for this property.
KnownIds == IOEnv.KNOWN
IsKnown(id) == \E k \in 1 .. Len(KnownIds) - Len(id) + 1 : SubSeq(KnownIds, k, k + Len(id) - 1) = id

\* As Judge, but notes that the case matches a known finding.
JudgeK(ok, why, known, id) ==
    /\ IF known THEN PrintT("KNOWN " \o id) ELSE TRUE
    /\ Judge(ok, why)

Range(q) == {q[k] : k \in DOMAIN q}
=============================================================================
