--------------------------- MODULE CallbacksTrace ---------------------------
EXTENDS Callbacks, TraceIO
Kinds == {"data", "meta", "changed", "start", "upd", "done", "note", "block", "status", "error", "E", "T"}
TInit == TraceInit /\ pend = {} /\ depth = 0 /\ poss = [k \in Kinds |-> {1}]
TEvents ==
    CASE Ev.e = "set" -> SetCall(Ev.k, Ev.g)
      [] Ev.e = "was" -> SetDone(Ev.k, Ev.g)
      [] Ev.e = "ev" -> Occurs(Ev.k, Ev.id, pos)
      [] Ev.e = "perhaps" -> OccursMaybe(Ev.k, Ev.id, pos)
      [] Ev.e = "got" -> Delivered(Ev.k, Ev.id, Ev.g)
      [] Ev.e = "back" -> Returns
      [] Ev.e = "rest" -> Rest
      [] Ev.e = "end" -> Ev.kind = "ok" /\ UNCHANGED cvars
      [] OTHER -> FALSE
TNext == More /\ TEvents /\ Take
=============================================================================
