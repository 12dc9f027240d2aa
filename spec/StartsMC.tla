------------------------------ MODULE StartsMC ------------------------------
(* Three calls, one publisher that may refuse or end the connection, and a   *)
(* program that takes the port of the listener.                              *)
EXTENDS Starts
CONSTANTS Calls, Losses
VARIABLES made, losses, oks, stops
mcvars == <<stvars, made, losses, oks, stops>>

C(op, good, au, x) == [op |-> op, good |-> good, host |-> "h", port |-> IF op = "dial" THEN 1 ELSE 2, name |-> FALSE, auto |-> au, set |-> x, t |-> 0]
Init == StInit /\ made = 0 /\ losses = 0 /\ oks = 0 /\ stops = 0
Other == UNCHANGED <<made, losses, oks, stops>>
Next ==
    \/ \E op \in {"dial", "listen"}, good \in BOOLEAN, au \in BOOLEAN :
         made < Calls /\ ~stopping /\ Call(made + 1, C(op, good, au, made + 1)) /\ made' = made + 1 /\ UNCHANGED <<losses, oks, stops>>
    \/ Attempt("h", 1) /\ Other
    \/ \E ok \in BOOLEAN : Dialed(ok) /\ Other
    \/ taken # 2 /\ Bind("h", 2) /\ Other
    \/ \E i \in DOMAIN calls, ok \in BOOLEAN : Return(i, ok, 0) /\ oks' = oks + (IF ok THEN 1 ELSE 0) /\ UNCHANGED <<made, losses, stops>>
    \/ Publisher /\ Other
    \/ Established /\ Other
    \/ Terminated /\ owed > 0 /\ Other
    \/ losses < Losses /\ Lose /\ losses' = losses + 1 /\ UNCHANGED <<made, oks, stops>>
    \/ \E p \in {0, 2} : taken # p /\ mode = "idle" /\ Takes(p) /\ Other
    \/ stops < 1 /\ calls = None /\ infl = 0 /\ mode # "idle" /\ ~stopping /\ Stop /\ stops' = stops + 1 /\ UNCHANGED <<made, losses, oks>>
    \/ stopping /\ owed = 0 /\ Off(FALSE, FALSE) /\ Other
Spec == Init /\ [][Next]_mcvars

\* At most one attempt, connection or listener.
One == /\ infl # 0 => mode \in {"idle", "re"}
       /\ mode = "idle" => link = "no"
       /\ mode = "re" => auto
\* Between two stops or losses one call takes effect.
Effects == oks + Cardinality({i \in DOMAIN calls : calls[i].won}) <= 1 + losses + stops
\* A call whose address makes no sense never takes effect.
Sense == \A i \in DOMAIN calls : calls[i].won => calls[i].good
\* A refused call always has a way to return, and a call that took effect too.
Ends == \A i \in DOMAIN calls : infl # i =>
    (ENABLED Return(i, TRUE, 0) \/ ENABLED Return(i, FALSE, 0) \/ (calls[i].good /\ ~calls[i].seen /\ mode = "idle"))
\* What a refused call leaves alone.
Undisturbed == [][\A i \in DOMAIN calls : (calls[i].busy /\ i \notin DOMAIN calls') => UNCHANGED <<mode, at, auto, set, link, infl>>]_mcvars
=============================================================================
