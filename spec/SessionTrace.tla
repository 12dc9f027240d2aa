---------------------------- MODULE SessionTrace ----------------------------
(* Binds Session.tla to runs recorded from the implementation.               *)
EXTENDS Session, TraceIO
Unlimited == Runs[run].cfg.maxr = -1 /\ Runs[run].cfg.level = "sub"

\* Where attempts are far apart: when a stop was first requested, for the calls it has to end.
VARIABLE asked
Prompt == 1000
TInit == TraceInit /\ SInit /\ auto = Cfg.auto /\ asked = Empty
Asking == IF Ev.e = "call" /\ Ev.op \in Stops /\ Cfg.long
          THEN asked' = [i \in DOMAIN asked \cup {Ev.id} \cup {j \in PendStarts : calls[j].act} |-> IF i \in DOMAIN asked THEN asked[i] ELSE Ev.t]
          ELSE IF Ev.e = "ret" /\ Ev.id \in DOMAIN asked
          THEN On("C08", Ev.t < asked[Ev.id] + Prompt) /\ asked' = asked
          ELSE asked' = asked

\* What an earlier connection's publisher sends to the UDP port may arrive later.
Serving == {c \in DOMAIN conn : conn[c].ph = "up" \/ (conn[c].ph = "acc" /\ cur = 0)}

Events1 ==
    CASE Ev.e = "call" -> IF Ev.op \in Starts THEN StartCall(Ev.id, Ev.op) ELSE StopCall(Ev.id, Ev.op)
      [] Ev.e = "ret" -> IF Ev.op \in Starts THEN StartRet(Ev.id, Ev.res, Unlimited) ELSE StopRet(Ev.id)
      [] Ev.e = "att" -> Attempt
      [] Ev.e = "dialed" -> Dialed(Ev.c, Ev.ok)
      [] Ev.e = "pdial" -> IF Ev.c = 0 THEN UNCHANGED svars ELSE PubDial(Ev.c)
      [] Ev.e \in {"pclose", "refuse"} -> PeerEnds(Ev.c)
      [] Ev.e = "sclose" -> IF Live(Ev.c) THEN Shut(Ev.c) ELSE UNCHANGED svars
      [] Ev.e = "lis" -> IF Ev.open THEN ListenerOpens ELSE ListenerCloses
      [] Ev.e = "E" -> \/ \E c \in DOMAIN conn : conn[c].ph = "acc" /\ ~conn[c].shut /\ Established(c, Ev.k)
                       \/ Prop # "C07" /\ ~(\E c \in DOMAIN conn : conn[c].ph = "acc" /\ ~conn[c].shut) /\ UNCHANGED svars
      [] Ev.e = "T" -> Terminated(Ev.k)
      [] Ev.e = "data" -> Data(IF Cfg.udp /\ Serving # {} THEN CHOOSE c \in Serving : TRUE ELSE Ev.c)
      [] Ev.e = "snap" -> AtRest(Ev.conn, Ev.lis, Range(Ev.open), Ev.udp, Ev.port, Ev.threads, Unlimited)
      [] Ev.e = "end" -> (Ev.kind = "ok" \/ Prop \notin {"C08", "C27", "ALL"}) /\ UNCHANGED svars
      [] OTHER -> FALSE

TNext == More /\ Events1 /\ Asking /\ Take
=============================================================================
