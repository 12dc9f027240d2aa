------------------------------- MODULE Starts -------------------------------
(* A subscriber is idle, connected, waiting to connect again, or listening.  *)
(* Dial and Listen take effect when it is idle; of several calls at the same *)
(* time one takes effect.  Any other call is refused, and changes nothing.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    mode,    \* "idle", "up", "re" (lost, to be connected again), "lis"
    at,      \* where it is connected or listening: [host, port, name]
    auto,    \* whether it connects again
    set,     \* the settings in effect: what is stated to publishers, plus 8 for requests made on its own
    calls,   \* calls that have not returned: id -> [op, good, host, port, name, auto, set, t, busy, seen, ref, won]
    infl,    \* the call whose connection attempt is under way, 0 if none, -1 for connecting again
    link,    \* the publisher: "no", "new", "up"
    owed,    \* connections whose end has not been announced
    taken,   \* a port that somebody else listens at, or 0
    stopping,
    sent, got \* measurements

stvars == <<mode, at, auto, set, calls, infl, link, owed, taken, stopping, sent, got>>
None == [x \in {} |-> 0]
Nowhere == [host |-> "", port |-> 0, name |-> FALSE]
Place(c) == [host |-> c.host, port |-> c.port, name |-> c.name]
\* A name may have been resolved.
Leads(p, host, port) == p.port = port /\ (p.host = host \/ (p.name /\ host = "127.0.0.1"))

StInit == mode = "idle" /\ at = Nowhere /\ auto = FALSE /\ set = 0 /\ calls = None /\ infl = 0 /\ link = "no" /\ owed = 0 /\ taken = 0
          /\ stopping = FALSE /\ sent = 0 /\ got = 0

Seen(f) == [i \in DOMAIN f |-> [f[i] EXCEPT !.seen = TRUE]]
Call(i, c) == /\ calls' = [x \in DOMAIN calls \cup {i} |->
                             IF x # i THEN calls[x]
                             ELSE c @@ [busy |-> mode \in {"up", "lis"}, seen |-> mode # "idle", ref |-> FALSE, won |-> FALSE]]
              /\ UNCHANGED <<mode, at, auto, set, infl, link, owed, taken, stopping, sent, got>>

Attempt(host, port) ==
    /\ infl = 0 /\ ~stopping
    /\ \/ mode = "re" /\ Leads(at, host, port) /\ infl' = -1
       \/ mode = "idle" /\ \E i \in DOMAIN calls : calls[i].op = "dial" /\ calls[i].good /\ Leads(calls[i], host, port) /\ infl' = i
    /\ UNCHANGED <<mode, at, auto, set, calls, link, owed, taken, stopping, sent, got>>

Dialed(ok) ==
    /\ infl # 0
    /\ infl' = 0
    /\ IF ok
       THEN /\ mode' = "up" /\ link' = "new"
            /\ IF infl = -1 THEN UNCHANGED <<at, auto, set>> /\ calls' = Seen(calls)
               ELSE at' = Place(calls[infl]) /\ auto' = calls[infl].auto /\ set' = calls[infl].set /\ calls' = [Seen(calls) EXCEPT ![infl].won = TRUE]
       ELSE /\ calls' = IF infl = -1 THEN calls ELSE [calls EXCEPT ![infl].ref = TRUE]
            /\ UNCHANGED <<mode, at, auto, set, link>>
    /\ UNCHANGED <<owed, taken, stopping, sent, got>>

Bind(host, port) ==
    /\ mode = "idle" /\ infl = 0 /\ ~stopping
    /\ \E i \in DOMAIN calls :
         /\ calls[i].op = "listen" /\ calls[i].good /\ Leads(calls[i], host, port)
         /\ at' = Place(calls[i]) /\ set' = calls[i].set /\ calls' = [Seen(calls) EXCEPT ![i].won = TRUE]
    /\ mode' = "lis"
    /\ UNCHANGED <<auto, infl, link, owed, taken, stopping, sent, got>>
Unbind == mode = "lis" /\ stopping /\ UNCHANGED stvars

\* A call that is refused because the subscriber is in use, or whose address makes no sense,
\* does not wait.
Return(i, ok, t) ==
    LET c == calls[i] IN
    /\ ok = c.won
    /\ ~ok => ~c.good \/ c.seen \/ c.ref \/ (c.op = "listen" /\ taken = c.port)
    /\ c.busy \/ ~c.good => t = c.t
    /\ infl # i
    /\ calls' = [x \in DOMAIN calls \ {i} |-> calls[x]]
    /\ UNCHANGED <<mode, at, auto, set, infl, link, owed, taken, stopping, sent, got>>

\* A publisher connects to the listener.
Publisher == mode = "lis" /\ link = "no" /\ link' = "new" /\ UNCHANGED <<mode, at, auto, set, calls, infl, owed, taken, stopping, sent, got>>

\* The publisher is told the settings of the call that took effect, also after others were refused.
Modes(x) == x = set % 8 /\ UNCHANGED stvars
\* It makes requests on its own if these settings say so.
Request == set >= 8 /\ UNCHANGED stvars

Established == link = "new" /\ link' = "up" /\ UNCHANGED <<mode, at, auto, set, calls, infl, owed, taken, stopping, sent, got>>
Terminated == /\ (owed > 0 \/ stopping) /\ owed' = IF owed > 0 THEN owed - 1 ELSE 0
              /\ UNCHANGED <<mode, at, auto, set, calls, infl, link, taken, stopping, sent, got>>

\* The publisher ends the connection.
Lose == /\ link = "up" /\ link' = "no" /\ owed' = owed + 1
        /\ mode' = IF mode = "lis" THEN mode ELSE IF auto THEN "re" ELSE "idle"
        /\ UNCHANGED <<at, auto, set, calls, infl, taken, stopping, sent, got>>

Send(k) == sent' = k /\ UNCHANGED <<mode, at, auto, set, calls, infl, link, owed, taken, stopping, got>>
Data(k) == k = got + 1 /\ k <= sent /\ got' = k /\ UNCHANGED <<mode, at, auto, set, calls, infl, link, owed, taken, stopping, sent>>

\* Another program takes a port (0: leaves it).
Takes(p) == taken' = p /\ UNCHANGED <<mode, at, auto, set, calls, infl, link, owed, stopping, sent, got>>

\* After a long time; publishers accept in the end, or calls give up.
Rest(conn, lis) ==
    /\ calls = None /\ infl = 0 /\ owed = 0 /\ mode # "re" /\ link # "new"
    /\ lis <=> mode = "lis"
    /\ conn <=> link = "up"
    /\ got = sent
    /\ UNCHANGED stvars

Stop == stopping' = TRUE /\ UNCHANGED <<mode, at, auto, set, calls, infl, link, owed, taken, sent, got>>
Off(conn, lis) ==
    /\ ~conn /\ ~lis
    /\ mode' = "idle" /\ link' = "no" /\ owed' = 0 /\ stopping' = FALSE
    /\ UNCHANGED <<at, auto, set, calls, infl, taken, sent, got>>
=============================================================================
