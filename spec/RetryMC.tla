------------------------------ MODULE RetryMC -------------------------------
(* Retry.tla explored over every order of failures, refusals and losses.     *)
EXTENDS Retry
VARIABLES now, prev, gap   \* time; when the last attempt ended; wait before the current attempt
mv == <<rvars, now, prev, gap>>
CONSTANT Horizon
MCInit == /\ RInit /\ now = 0 /\ prev = 0 /\ gap = <<0, 0>>
          /\ pol \in [r : {1, 2, 3}, max : {1, 4, 5}, m : {-1, 0, 1, 3}, auto : BOOLEAN]
Keep == UNCHANGED <<now, prev, gap>>
MCNext ==
    \/ now < Horizon /\ (ph = "waiting" => now < due) /\ ph \notin {"lost"} /\ now' = now + 1 /\ UNCHANGED <<rvars, prev, gap>>
    \/ ph = "off" /\ Dial(now) /\ prev' = now /\ gap' = <<0, 0>> /\ UNCHANGED now
    \/ Attempt(now) /\ gap' = <<gap[2], now - prev>> /\ UNCHANGED <<now, prev>>
    \/ Failed(now) /\ prev' = now /\ UNCHANGED <<now, gap>>
    \/ Accepted(now) /\ Keep
    \/ Refuse /\ ~ref /\ Keep
    \/ Lose(now) /\ Keep
    \/ Ended(now) /\ prev' = now /\ gap' = (IF ref THEN gap ELSE <<0, 0>>) /\ UNCHANGED now
    \/ dialing /\ ph \in {"up", "lost", "spent"} /\ DialReturns(IF ph = "spent" THEN "failed" ELSE "ok") /\ Keep
    \/ ph # "off" /\ Stop /\ Keep
\* No more retries than configured; no wait longer than the maximum; each wait doubles.
Bounded == M # -1 => k <= M
WaitInTime == ph = "waiting" => due - now <= Max
Doubles == (ph = "trying" /\ k >= 2) => (gap[2] = Max \/ gap[2] = 2 * gap[1])
First == (ph = "trying" /\ k = 1) => gap[2] = (IF R > Max THEN Max ELSE R)
NotWanted == (~Auto /\ ph \in {"waiting", "trying"}) => dialing
=============================================================================
