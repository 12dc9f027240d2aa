----------------------------- MODULE StartsTrace ----------------------------
(* Binds Starts.tla to runs recorded from the implementation.                *)
EXTENDS Starts, TraceIO
TInit == TraceInit /\ StInit
Events1 ==
    CASE Ev.e = "call" -> Call(Ev.id, [op |-> Ev.op, good |-> Ev.good, host |-> Ev.host, port |-> Ev.port, name |-> Ev.name, auto |-> Ev.auto, set |-> Ev.set, t |-> Ev.t])
      [] Ev.e = "ret" -> Return(Ev.id, Ev.ok, Ev.t)
      [] Ev.e = "att" -> Attempt(Ev.host, Ev.port)
      [] Ev.e = "dialed" -> Dialed(Ev.ok)
      [] Ev.e = "bind" -> Bind(Ev.host, Ev.port)
      [] Ev.e = "unbind" -> Unbind
      [] Ev.e = "pub" -> Publisher
      [] Ev.e = "modes" -> IF stopping \/ link = "no" THEN UNCHANGED stvars ELSE Modes(Ev.x)
      [] Ev.e = "req" -> Request
      [] Ev.e = "E" -> Established
      [] Ev.e = "T" -> Terminated
      [] Ev.e = "lose" -> Lose
      [] Ev.e = "tx" -> Send(Ev.k)
      [] Ev.e = "data" -> Data(Ev.k)
      [] Ev.e = "taken" -> Takes(Ev.port)
      [] Ev.e = "rest" -> Rest(Ev.conn, Ev.lis)
      [] Ev.e = "stop" -> Stop
      [] Ev.e = "off" -> Off(Ev.conn, Ev.lis)
      [] Ev.e = "end" -> Ev.kind = "ok" /\ UNCHANGED stvars
      [] OTHER -> FALSE
TNext == More /\ Events1 /\ Take
=============================================================================
