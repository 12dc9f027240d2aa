---------------------------- MODULE RequestTrace ----------------------------
(* Binds Request.tla to requests recorded from the implementation.           *)
EXTENDS Request, TraceIO
TInit == TraceInit /\ RqInit(Cfg)
TNext == /\ More
         /\ CASE Ev.e = "set" -> Given(Ev.s)
              [] Ev.e = "modes" -> OpensWith(Ev.b)
              [] Ev.e = "sub" -> Subscribes(Ev.b)
              [] Ev.e = "meta" -> AsksMetadata(Ev.b)
              [] Ev.e = "end" -> Ev.kind = "ok" /\ UNCHANGED rqvars
              [] OTHER -> FALSE
         /\ Take
=============================================================================
