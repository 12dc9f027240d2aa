----------------------------- MODULE Callbacks ------------------------------
(* Receivers that are replaced while events occur: each event goes, once, to *)
(* a receiver that was installed between its occurrence and its delivery.    *)
(* Receivers of a kind are numbered; 0 stands for none.                      *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  poss,    \* kind -> receivers that may be installed now
  depth,   \* receivers that have been called and have not returned
  pend     \* events not delivered yet: [k, id, gens]: kind, content, possible receivers
cvars == <<poss, pend, depth>>

\* Replacing the receiver of kind k: between the call and its return either may be installed.
SetCall(k, g) == /\ UNCHANGED depth
                 /\ poss' = [poss EXCEPT ![k] = @ \cup {g}]
                 /\ pend' = {IF p.k = k THEN [p EXCEPT !.gens = @ \cup {g}] ELSE p : p \in pend}
SetDone(k, g) == poss' = [poss EXCEPT ![k] = {g}] /\ pend' = pend /\ UNCHANGED depth

\* An event of kind k occurs; n tells apart events with the same content.
Occurs(k, id, n) == pend' = pend \cup {[k |-> k, id |-> id, n |-> n, gens |-> poss[k]]} /\ UNCHANGED <<poss, depth>>

\* A datagram that may be lost because its socket is closed first.
OccursMaybe(k, id, n) == pend' = pend \cup {[k |-> k, id |-> id, n |-> n, gens |-> poss[k] \cup {0}]} /\ UNCHANGED <<poss, depth>>

\* An event is delivered to receiver g.
Delivered(k, id, g) == \E p \in pend : /\ p.k = k /\ p.id = id /\ g \in p.gens
                                       /\ pend' = pend \ {p}
                                       /\ depth' = depth + 1
                                       /\ UNCHANGED poss

\* A receiver returns, whatever it has called meanwhile.
Returns == depth > 0 /\ depth' = depth - 1 /\ UNCHANGED <<poss, pend>>

\* Everything waits: every receiver has returned, and no event is left that some receiver had to get.
Rest == /\ depth = 0
        /\ \A p \in pend : 0 \in p.gens
        /\ pend' = {} /\ UNCHANGED <<poss, depth>>
=============================================================================
