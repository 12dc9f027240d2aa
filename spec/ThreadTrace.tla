---------------------------- MODULE ThreadTrace -----------------------------
(* Binds Thread.tla to runs recorded from the implementation.                *)
EXTENDS Thread, TraceIO
TraceCalls == 1 .. 40
tvars == <<vars, traceVars>>

TInit == Init /\ TraceInit

TCall == Is("call") /\ Call(Ev.id, Ev.op) /\ Take
TRet  == /\ Is("ret") /\ Ret(Ev.id)
         /\ ops[Ev.id].op \in {"try", "isrun", "start"} => ops[Ev.id].res = Ev.res
         /\ Take
TRunB == Is("rb") /\ RunBegin /\ Take
TRunE == Is("re") /\ RunEnd /\ Take
TSnap == /\ Is("snap") /\ Ev.left = 0 /\ st = "idle"
         /\ acc = begun /\ begun = ended /\ ended = Ev.runs
         /\ UNCHANGED vars /\ Take
TEnd  == Is("end") /\ Ev.kind = "ok" /\ UNCHANGED vars /\ Take

\* Internal instants.  A call needs to take effect only before its return is consumed and a run
\* needs to become idle only when something depends on it; taking them at any point is sound.
TInt == More /\ Internal /\ ((\E c \in Calls : Effect(c)) \/ Idle)

TNext == TCall \/ TRet \/ TRunB \/ TRunE \/ TSnap \/ TEnd \/ TInt
=============================================================================
