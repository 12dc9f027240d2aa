------------------------------- MODULE Thread -------------------------------
(* The thread helper: a function that is run once per accepted start, never  *)
(* overlapping itself, with a Join that waits for the accepted run.          *)
(*                                                                           *)
(* A call takes effect at one instant between its invocation and its return  *)
(* (the action Effect); the run itself begins and ends at visible instants.  *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Calls   \* identities of calls (also: bound on the number of calls)

VARIABLES st,     \* idle | pending | running | done (body over, not yet idle)
          ops,    \* call -> [op, ph: "none" | "called" | "eff" | "ret", res, wait]
          acc,    \* accepted starts
          begun,  \* runs begun
          ended   \* runs ended
vars == <<st, ops, acc, begun, ended>>

Kinds == {"start", "try", "join", "isrun"}
NoOp == [op |-> "none", ph |-> "none", res |-> FALSE]

Init == /\ st = "idle"
        /\ ops = [c \in Calls |-> NoOp]
        /\ acc = 0 /\ begun = 0 /\ ended = 0

Call(c, k) == /\ ops[c].ph = "none"
              /\ ops' = [ops EXCEPT ![c] = [op |-> k, ph |-> "called", res |-> FALSE]]
              /\ UNCHANGED <<st, acc, begun, ended>>

\* Start and TryStart are accepted exactly when no run is pending or in progress.
EffStart(c) == /\ ops[c].op \in {"start", "try"}
               /\ LET ok == st = "idle" IN
                  /\ ops' = [ops EXCEPT ![c].ph = "eff", ![c].res = ok]
                  /\ st' = IF ok THEN "pending" ELSE st
                  /\ acc' = IF ok THEN acc + 1 ELSE acc
               /\ UNCHANGED <<begun, ended>>

\* Join waits until no run is pending or in progress.
EffJoin(c) == /\ ops[c].op = "join"
              /\ st = "idle"
              /\ ops' = [ops EXCEPT ![c].ph = "eff", ![c].res = TRUE]
              /\ UNCHANGED <<st, acc, begun, ended>>

\* IsRunning is true during the run; while the start is pending either answer is allowed.
EffIsRun(c) == /\ ops[c].op = "isrun"
               /\ \E v \in BOOLEAN :
                    /\ (st = "idle" => ~v) /\ (st = "running" => v)
                    /\ ops' = [ops EXCEPT ![c].ph = "eff", ![c].res = v]
               /\ UNCHANGED <<st, acc, begun, ended>>

Effect(c) == /\ ops[c].ph = "called"
             /\ (EffStart(c) \/ EffJoin(c) \/ EffIsRun(c))

Ret(c) == /\ ops[c].ph = "eff"
          /\ ops' = [ops EXCEPT ![c].ph = "ret"]
          /\ UNCHANGED <<st, acc, begun, ended>>

RunBegin == /\ st = "pending"
            /\ st' = "running" /\ begun' = begun + 1
            /\ UNCHANGED <<ops, acc, ended>>

RunEnd == /\ st = "running"
          /\ st' = "done" /\ ended' = ended + 1
          /\ UNCHANGED <<ops, acc, begun>>

Idle == /\ st = "done"
        /\ st' = "idle"
        /\ UNCHANGED <<ops, acc, begun, ended>>

Next == \/ \E c \in Calls, k \in Kinds : Call(c, k)
        \/ \E c \in Calls : Effect(c) \/ Ret(c)
        \/ RunBegin \/ RunEnd \/ Idle

Spec == Init /\ [][Next]_vars /\ WF_vars(RunBegin) /\ WF_vars(RunEnd) /\ WF_vars(Idle)
             /\ \A c \in Calls : WF_vars(Effect(c)) /\ WF_vars(Ret(c))

----------------------------------------------------------------------------
\* C10
OncePerStart == begun <= acc /\ acc <= begun + 1
NoOverlap == ended <= begun /\ begun <= ended + 1
Refused == \A c \in Calls : ops[c].op \in {"start", "try"} /\ ops[c].ph = "eff" /\ ~ops[c].res => acc > 0
AllRun == []<>(acc = ended)
CallsReturn == \A c \in Calls : (ops[c].ph = "called") ~> (ops[c].ph = "ret")
=============================================================================
