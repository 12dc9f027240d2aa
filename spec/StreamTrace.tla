---------------------------- MODULE StreamTrace -----------------------------
(* Binds Stream.tla to runs recorded from the implementation.                *)
EXTENDS Stream, TraceIO

Watching == CASE JudgedProp \in {"C01", "C02"} -> {"data"}
              [] JudgedProp = "C03" -> {"data", "cache", "upd", "active"}
              [] JudgedProp = "C05" -> {"data", "start", "block", "note", "meta", "changed", "done", "status", "error", "bytes"}
              [] JudgedProp = "C06" -> {"data", "start", "block", "note"}
              [] JudgedProp = "C11" -> {"block", "blk"}
              [] JudgedProp = "C24" -> {"start", "note", "hash", "meta", "changed", "done", "status", "error", "valid"}
              [] JudgedProp = "C26" -> {"data"}
              [] OTHER -> {"data", "cache", "upd", "active", "start", "block", "blk", "note", "hash", "meta", "changed", "done", "status", "error", "bytes", "valid"}

TInit == TraceInit /\ MInit(Cfg.opt)

UpdOf(q) == \E e \in bag : e.k = "upd" /\ AgreesWith(e.x.recs, q)

Events1 ==
    CASE Ev.e = "conn" -> Connected
      [] Ev.e = "cut" -> Ending
      [] Ev.e = "T" -> Gone
      [] Ev.e = "tx" -> Message(Ev)
      [] Ev.e = "data" -> /\ \A j \in DOMAIN Ev.m : Ev.m[j].x
                          /\ Delivered("data", [j \in DOMAIN Ev.m |-> [id |-> Ev.m[j].id, v |-> Ev.m[j].v, f |-> Ev.m[j].f, t |-> Ev.m[j].t]], Len(Ev.m))
      [] Ev.e = "start" -> Delivered("start", Ev.x, 0)
      [] Ev.e = "blocks" -> DeliveredBlocks(Ev.b)
      [] Ev.e \in {"note", "meta", "changed", "done", "status", "error", "cache", "blk", "hash"} -> Reported(Ev.e, Ev.x)
      [] Ev.e = "err" -> ErrorReported
      [] Ev.e = "upd" -> IF ~Judged("upd") THEN UNCHANGED mvars
                         ELSE \E e \in bag : e.k = "upd" /\ AgreesWith(e.x.recs, Ev.q) /\ Reported("upd", e.x)
      [] Ev.e = "active" -> ActiveCache(Ev.q)
      [] Ev.e = "sub" -> Recount
      [] Ev.e = "rest" -> Rest(Ev)
      [] Ev.e = "end" -> Ev.kind = "ok" /\ UNCHANGED mvars
      [] OTHER -> FALSE

\* After bytes that are no message, only the next connection and failures are of interest.
TNext == /\ More
         /\ IF Ev.e = "wild" THEN Wild
            ELSE IF ph = "wild" /\ Ev.e \notin {"conn", "end"} THEN UNCHANGED mvars
            ELSE Events1
         /\ Take
=============================================================================
