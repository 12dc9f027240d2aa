---------------------------- MODULE ReaderTrace -----------------------------
(* Binds Reader.tla to runs recorded from the implementation.                *)
EXTENDS Reader, TraceIO
TInit == TraceInit /\ RdInit
TEvents ==
    CASE Ev.e = "tx" -> Batch(Ev.m)
      [] Ev.e = "txs" -> Batch([i \in 1 .. Ev.n |-> Ev.m + i - 1])
      [] Ev.e = "gots" -> TakesMany([i \in 1 .. Ev.n |-> Ev.m + i - 1])
      [] Ev.e = "read" -> ReadCall(Ev.k, Ev.c)
      [] Ev.e = "got" -> ReadMeasurement(Ev.k, Ev.m)
      [] Ev.e = "done" -> ReadCompleted(Ev.k)
      [] Ev.e = "cancel" -> Cancel(Ev.k)
      [] Ev.e = "close" -> CloseCall
      [] Ev.e = "rest" -> Rest(Ev.total)
      [] Ev.e = "end" -> Ev.kind = "ok" /\ UNCHANGED rdvars
      [] OTHER -> FALSE
\* Only right before a return does it matter who took what.
TNext == \/ More /\ TEvents /\ Take
         \/ More /\ Ev.e = "got" /\ Internal /\ \E k \in DOMAIN reads : Takes(k)
=============================================================================
