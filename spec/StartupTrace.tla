---------------------------- MODULE StartupTrace ----------------------------
(* Binds Startup.tla to recorded runs.                                       *)
EXTENDS Startup, TraceIO
TInit == TraceInit /\ UInit /\ opt = Cfg.opt
Skip == UNCHANGED uvars
TEvents ==
    CASE Ev.e = "open" -> Opened(Ev.c)
      [] Ev.e = "E" -> Announced
      [] Ev.e = "out" -> (CASE Ev.code = "06" -> SendModes(Ev.c)
                            [] Ev.code = "01" -> SendMetadata(Ev.c)
                            [] Ev.code = "02" -> SendSubscribe(Ev.c, Ev.f)
                            [] Ev.code = "03" -> SendUnsubscribe(Ev.c)
                            [] Ev.code = "0a" -> Skip
                            [] OTHER -> FALSE)
      [] Ev.e = "pub" -> Sends(Ev.m)
      [] Ev.e = "ends" -> Ends
      [] Ev.e = "call" -> UserCall(Ev.id, Ev.op, Ev.f)
      [] Ev.e = "ret" -> UserRet(Ev.id, Ev.op, Ev.f)
      [] Ev.e = "rest" -> Rest(Ev.val, Ev.subd)
      [] Ev.e = "end" -> Ev.kind = "ok" /\ Skip
      [] OTHER -> FALSE
TNext == More /\ ((TEvents /\ Take) \/ (Silent /\ Internal))
=============================================================================
