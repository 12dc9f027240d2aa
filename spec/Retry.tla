------------------------------- MODULE Retry --------------------------------
(* When connection attempts are made: the retry policy of Dial and of        *)
(* automatic reconnection.  Times are in milliseconds.                       *)
EXTENDS Integers

VARIABLES
  pol,     \* the policy: [r, max, m, auto]: retry interval, its maximum, retries (-1: no limit),
           \* lost connections are to be re-established
  ph,      \* "off", "trying" (attempt in flight), "waiting", "up", "lost" (its end not announced
           \* yet), "spent" (no retries left, or none wanted)
  k,       \* retries made since the connection was last wanted or lost
  due,     \* when waiting: the time of the next attempt
  ref,     \* the publisher refused the connection it accepted
  dialing  \* a call of Dial has not returned

rvars == <<pol, ph, k, due, ref, dialing>>

R == pol.r
Max == pol.max
M == pol.m
Auto == pol.auto

RInit == ph = "off" /\ k = 0 /\ due = 0 /\ ref = FALSE /\ dialing = FALSE

\* R doubled n times, but no more than Max (R and Max are below 2^20 and R is positive).
Delay(n) == IF n > 20 \/ R > Max \div 2 ^ n THEN Max ELSE R * 2 ^ n

Exhausted == M # -1 /\ k >= M

Dial(t) == /\ pol' = pol /\ ph' = "waiting" /\ k' = -1 /\ due' = t /\ ref' = FALSE /\ dialing' = TRUE

\* The first attempt (k = -1 before it) is not a retry.
Attempt(t) == /\ ph = "waiting" /\ t = due
              /\ ph' = "trying" /\ k' = k + 1 /\ ref' = FALSE
              /\ UNCHANGED <<pol, due, dialing>>

Failed(t) == /\ ph = "trying"
             /\ IF Exhausted THEN ph' = "spent" /\ due' = due
                             ELSE ph' = "waiting" /\ due' = t + Delay(k)
             /\ UNCHANGED <<pol, k, ref, dialing>>

Accepted(t) == ph = "trying" /\ ph' = "up" /\ UNCHANGED <<pol, k, due, ref, dialing>>

Refuse == ph = "up" /\ ref' = TRUE /\ UNCHANGED <<pol, ph, k, due, dialing>>

Lose(t) == ph = "up" /\ ph' = "lost" /\ UNCHANGED <<pol, k, due, ref, dialing>>

\* The subscriber notices; retries count from zero unless the publisher had refused.
Ended(t) == /\ ph = "lost"
            /\ LET n == IF ref THEN k ELSE 0 IN
               IF ~Auto \/ (M # -1 /\ n >= M) THEN ph' = "spent" /\ UNCHANGED <<k, due>>
               ELSE ph' = "waiting" /\ k' = n /\ due' = t + Delay(n)
            /\ UNCHANGED <<pol, ref, dialing>>

DialReturns(res) ==
    /\ dialing
    /\ res = "ok" => ph \in {"up", "lost", "waiting", "trying", "spent", "off"}
    /\ res = "failed" => ph = "spent"
    /\ dialing' = FALSE
    /\ UNCHANGED <<pol, ph, k, due, ref>>

Stop == ph' = "off" /\ UNCHANGED <<pol, k, due, ref, dialing>>

\* Nothing is overdue.
AtRest(t) == /\ ph = "waiting" => due >= t
             /\ ph # "lost"
             /\ ph = "spent" => ~dialing
             /\ ph = "up" => ~dialing
             /\ UNCHANGED rvars
=============================================================================
