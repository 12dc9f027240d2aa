------------------------------- MODULE Reader -------------------------------
(* A measurement reader: a queue of what was received since it was attached, *)
(* taken from the front by reads, which may be cancelled.                    *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    q,        \* measurements not taken yet
    reads,    \* reads in progress: key -> [got, cancelled]; got is <<>> or <<measurement>>
    closing,  \* Close has been called
    count     \* measurements received in all

rdvars == <<q, reads, closing, count>>

RdInit == q = <<>> /\ reads = [k \in {} |-> 0] /\ closing = FALSE /\ count = 0

Batch(ms) == q' = q \o ms /\ count' = count + Len(ms) /\ UNCHANGED <<reads, closing>>
ReadCall(k, cancelled) == reads' = [x \in DOMAIN reads \cup {k} |-> IF x = k THEN [got |-> <<>>, cancelled |-> cancelled] ELSE reads[x]]
                          /\ UNCHANGED <<q, closing, count>>
\* A read takes the oldest measurement.
Takes(k) == /\ q # <<>> /\ reads[k].got = <<>>
            /\ reads' = [reads EXCEPT ![k].got = <<q[1]>>] /\ q' = Tail(q)
            /\ UNCHANGED <<closing, count>>
\* Many are read, one after the other, while no other read is in progress.
TakesMany(ms) == /\ DOMAIN reads = {} /\ Len(q) >= Len(ms) /\ SubSeq(q, 1, Len(ms)) = ms
                 /\ q' = SubSeq(q, Len(ms) + 1, Len(q)) /\ UNCHANGED <<reads, closing, count>>
Gone(k) == reads' = [x \in DOMAIN reads \ {k} |-> reads[x]]
ReadMeasurement(k, m) == reads[k].got = <<m>> /\ Gone(k) /\ UNCHANGED <<q, closing, count>>
ReadCompleted(k) == reads[k].got = <<>> /\ (reads[k].cancelled \/ closing) /\ Gone(k) /\ UNCHANGED <<q, closing, count>>
Cancel(k) == reads' = (IF k \in DOMAIN reads THEN [reads EXCEPT ![k].cancelled = TRUE] ELSE reads) /\ UNCHANGED <<q, closing, count>>
CloseCall == closing' = TRUE /\ UNCHANGED <<q, reads, count>>
\* Everything waits: so do only reads that have nothing to take and were not ended.
Rest(total) == /\ \A k \in DOMAIN reads : ~closing /\ ~reads[k].cancelled /\ q = <<>> /\ reads[k].got = <<>>
               /\ total = count
               /\ UNCHANGED rdvars
=============================================================================
