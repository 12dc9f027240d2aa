------------------------------ MODULE ReaderMC ------------------------------
(* Reader.tla explored: what reads return is what was received, each once.   *)
EXTENDS Reader
CONSTANTS Readers, MaxMeas
VARIABLES out, sent, seen    \* measurements returned, in the order of taking; sent so far; reads that returned one, per reader
mc == <<rdvars, out, sent, seen>>
MCInit == RdInit /\ out = <<>> /\ sent = 0 /\ seen = [k \in Readers |-> <<>>]
MCNext ==
    \/ \E n \in 0 .. 2 : sent + n <= MaxMeas /\ Batch([i \in 1 .. n |-> sent + i]) /\ sent' = sent + n /\ UNCHANGED <<out, seen>>
    \/ \E k \in Readers \ DOMAIN reads : ReadCall(k, FALSE) /\ UNCHANGED <<out, sent, seen>>
    \/ \E k \in DOMAIN reads : Takes(k) /\ out' = Append(out, q[1]) /\ UNCHANGED <<sent, seen>>
    \/ \E k \in DOMAIN reads : reads[k].got # <<>> /\ ReadMeasurement(k, reads[k].got[1]) /\ seen' = [seen EXCEPT ![k] = Append(@, reads[k].got[1])] /\ UNCHANGED <<out, sent>>
    \/ \E k \in DOMAIN reads : ReadCompleted(k) /\ UNCHANGED <<out, sent, seen>>
    \/ \E k \in DOMAIN reads : Cancel(k) /\ UNCHANGED <<out, sent, seen>>
    \/ CloseCall /\ UNCHANGED <<out, sent, seen>>
\* Nothing is lost, repeated or reordered.
Kept == out \o q = [i \in 1 .. sent |-> i]
Rising == \A k \in Readers : \A i, j \in DOMAIN seen[k] : i < j => seen[k][i] < seen[k][j]
Once == \A k, l \in Readers : k # l => {seen[k][i] : i \in DOMAIN seen[k]} \cap {seen[l][i] : i \in DOMAIN seen[l]} = {}
=============================================================================
