--------------------------- MODULE RegistryTrace ----------------------------
(* Binds Registry.tla to runs recorded from the implementation.              *)
EXTENDS Registry, TraceIO
TInit == TraceInit /\ RInit
TEvents ==
    CASE Ev.e = "E" -> Begin
      [] Ev.e = "cut" -> End
      [] Ev.e = "look" -> Call(Ev.k, Ev.s)
      [] Ev.e = "got" -> Return(Ev.k, Ev.p)
      [] Ev.e = "set" -> Adjust(Ev.p, Ev.m, Ev.a)
      [] Ev.e = "meta" -> Metadata(Ev.rows, Range(Ev.cols))
      [] Ev.e = "cache" -> Cache(Ev.rs)
      [] Ev.e = "see" -> Shows(Ev.s, Ev.p, Ev.f)
      [] Ev.e = "adj" -> Adjusted(Ev.s, Ev.v, Ev.w)
      [] Ev.e = "end" -> Ev.kind = "ok" /\ UNCHANGED rvars
      [] OTHER -> FALSE
TNext == More /\ TEvents /\ Take
=============================================================================
