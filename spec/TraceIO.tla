------------------------------ MODULE TraceIO -------------------------------
(* Reading runs recorded from the implementation.  Every run is one initial  *)
(* state; a module that extends this one lets each recorded event be taken   *)
(* only by an action of the specification that allows it (with internal      *)
(* actions in between).  A run is accepted when its last event is reached.   *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
NumRuns == Len(Runs)
Verbose == IOEnv.VERBOSE = "1"
JudgedProp == IOEnv.PROP

VARIABLES run, pos      \* run number, number of events consumed
traceVars == <<run, pos>>

TraceInit == run \in 1 .. NumRuns /\ pos = 0

Cfg == Runs[run].cfg
Events == Runs[run].ev
Ev == Events[pos + 1]
More == pos < Len(Events)

\* Consume the next event.
Take == /\ pos' = pos + 1
        /\ UNCHANGED run
        /\ IF pos + 1 = Len(Runs[run].ev) THEN PrintT("ACCEPT " \o ToString(run)) ELSE TRUE
        /\ IF Verbose THEN PrintT("REACHED " \o ToString(run) \o " " \o ToString(pos + 1)) ELSE TRUE

Internal == UNCHANGED traceVars

Is(e) == More /\ Ev.e = e
Has(r, f) == f \in DOMAIN r
Range(q) == {q[k] : k \in DOMAIN q}
=============================================================================
