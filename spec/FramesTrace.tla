---------------------------- MODULE FramesTrace -----------------------------
EXTENDS Frames, TraceIO
TInit == TraceInit /\ FInit
TEvents ==
    CASE Ev.e = "open" -> Open
      [] Ev.e = "send" -> Issue(Ev.w, Command(Ev.code, Ev.n, Ev.p))
      [] Ev.e = "ask" -> Ask(Command(Ev.code, Ev.n, Ev.p))
      [] Ev.e = "sent" -> Ev.same /\ UNCHANGED fvars
      [] Ev.e = "frame" -> Arrive(Ev.h, Ev.code, Ev.n, Ev.p)
      [] Ev.e = "ending" -> EndConnection
      [] Ev.e = "rest" -> Ev.left = 0 /\ Rest
      [] Ev.e = "end" -> Ev.kind = "ok" /\ UNCHANGED fvars
      [] OTHER -> FALSE
TNext == More /\ TEvents /\ Take
=============================================================================
