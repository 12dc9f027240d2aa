----------------------------- MODULE RetryTrace -----------------------------
(* Binds Retry.tla to recorded runs.                                         *)
EXTENDS Retry, TraceIO
VARIABLES up,       \* an attempt was accepted since the call of Dial
          flight,   \* an attempt was in flight when the subscriber was told to stop
          owe,      \* the application is to be told at this time: of a retry, by an error message,
          end,      \* or, by any message, that no further retry is made to re-establish the connection
          told, err \* times of the last message, and of the last error message
rv == <<rvars, up, flight>>
TInit == TraceInit /\ RInit /\ pol = Cfg /\ up = FALSE /\ flight = FALSE /\ owe = -1 /\ end = -1 /\ told = -1 /\ err = -1
\* Messages are due before time passes.
Told(t) == (owe # -1 /\ owe < t => err = owe) /\ (end # -1 /\ end < t => told = end)
Owing == /\ owe' = IF Ev.e = "disc" THEN -1 ELSE IF ph' = "waiting" /\ ph # "waiting" /\ Ev.e # "dial" THEN Ev.t ELSE IF owe < Ev.t THEN -1 ELSE owe
         /\ end' = IF Ev.e = "disc" THEN -1 ELSE IF ph' = "spent" /\ ph # "spent" /\ ~dialing /\ Auto THEN Ev.t ELSE IF end < Ev.t THEN -1 ELSE end
         /\ told' = IF Ev.e = "msg" THEN Ev.t ELSE told
         /\ err' = IF Ev.e = "msg" /\ Ev.err THEN Ev.t ELSE err
Same == UNCHANGED <<up, flight>>
TEvents ==
    CASE Ev.e = "dial" -> Dial(Ev.t) /\ up' = FALSE /\ flight' = FALSE
      [] Ev.e = "att" -> Attempt(Ev.t) /\ Same
      [] Ev.e = "dialed" ->
           IF ph = "off" THEN flight /\ flight' = FALSE /\ up' = (up \/ Ev.ok) /\ UNCHANGED rvars
           ELSE IF Ev.ok THEN Accepted(Ev.t) /\ up' = TRUE /\ UNCHANGED flight ELSE Failed(Ev.t) /\ Same
      [] Ev.e = "refuse" -> Refuse /\ Same
      [] Ev.e = "lose" -> (IF ph = "up" THEN Lose(Ev.t) ELSE UNCHANGED rvars) /\ Same
      [] Ev.e = "msg" -> UNCHANGED rv
      [] Ev.e = "E" -> UNCHANGED rv
      [] Ev.e = "T" -> (IF ph = "off" THEN UNCHANGED rvars ELSE Ended(Ev.t)) /\ Same
      [] Ev.e = "ret" -> /\ (IF ph = "off" THEN dialing /\ dialing' = FALSE /\ UNCHANGED <<pol, ph, k, due, ref>> ELSE DialReturns(Ev.res))
                         /\ Ev.res \in {"ok", "failed", "canceled"}
                         /\ Ev.res = "canceled" => ph = "off"
                         /\ Ev.res = "ok" => up
                         /\ Same
      [] Ev.e = "rest" -> AtRest(Ev.t) /\ Same
      [] Ev.e = "disc" -> Stop /\ flight' = (ph = "trying") /\ UNCHANGED up
      [] Ev.e = "off" -> Ev.done /\ ~flight /\ ph = "off" /\ UNCHANGED rv
      [] Ev.e = "end" -> Ev.kind = "ok" /\ UNCHANGED rv
      [] OTHER -> FALSE
TNext == More /\ TEvents /\ (IF Ev.e = "end" THEN UNCHANGED <<owe, end, told, err>> ELSE Told(Ev.t) /\ Owing) /\ Take
=============================================================================
