------------------------------ MODULE UdpTrace ------------------------------
(* Binds Udp.tla to runs recorded from the implementation.                   *)
EXTENDS Udp, TraceIO

\* TLC compares records by the fields it meets first: the number of an entry, not what is in it.
EntryShape == [n |-> 0, k |-> "", opt |-> FALSE, x |-> 0]

Watching == {"data", "block", "blk", "cache", "upd", "active", "bytes"}
TInit == TraceInit /\ UInit(Cfg.opt)

Events1 ==
    CASE Ev.e = "conn" -> UConnected
      [] Ev.e = "cut" -> UEnding
      [] Ev.e = "T" -> UGone
      [] Ev.e = "tx" -> IF Ev.udp THEN SendU(Ev, Ev.got) ELSE SendT(Ev)
      [] Ev.e = "call" -> Call
      [] Ev.e = "ret" -> IF Ev.op = "unsub" THEN Unsubscribed ELSE UNCHANGED uvars
      [] Ev.e = "sub" -> Requested
      [] Ev.e = "data" -> /\ \A j \in DOMAIN Ev.m : Ev.m[j].x
                          /\ Delivered("data", [j \in DOMAIN Ev.m |-> [id |-> Ev.m[j].id, v |-> Ev.m[j].v, f |-> Ev.m[j].f, t |-> Ev.m[j].t]], Len(Ev.m)) /\ Others2
      [] Ev.e = "blocks" -> DeliveredBlocks(Ev.b) /\ Others2
      [] Ev.e \in {"cache", "blk"} -> Reported(Ev.e, Ev.x) /\ Others2
      [] Ev.e = "upd" -> \E e \in bag : e.k = "upd" /\ AgreesWith(e.x.recs, Ev.q) /\ Reported("upd", e.x) /\ Others2
      [] Ev.e = "active" -> ActiveCache(Ev.q) /\ Others2
      [] Ev.e = "rest" -> URest(Ev)
      [] Ev.e = "end" -> Ev.kind = "ok" /\ UNCHANGED uvars
      [] OTHER -> FALSE

TNext == More /\ \/ Events1 /\ Take
                 \/ (HandleT \/ HandleU \/ Lose) /\ Internal
=============================================================================
