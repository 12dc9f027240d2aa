------------------------------ MODULE Session -------------------------------
(* The life of a subscriber as its user and its publishers observe it:       *)
(* connecting, listening, losing and re-establishing connections,            *)
(* disconnecting and closing, with calls from several threads at once.       *)
(*                                                                           *)
(* Every guard is tagged with the property it belongs to, so that a recorded *)
(* run can be judged for one property at a time (Prop) and the model can be  *)
(* explored with all of them (Prop = "ALL").                                 *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT Prop        \* the property to judge, or "ALL"

On(p, cond) == IF Prop = p \/ Prop = "ALL" THEN cond ELSE TRUE

VARIABLES
  auto,       \* lost connections are to be re-established (never changes)
  intent,     \* what the user wants: "none", "dial", "listen", or "maybe" when a request to
              \* stop overlapped the request to start, so that either order is possible
  calls,      \* calls that have not returned: id -> [op, amb, stop, acc, ref, prev, act]
  mayStop,    \* a request to stop may still take effect
  unsettled,  \* a stop was requested and the subscriber has not been seen at rest since
  closing,    \* Close was called
  closed,     \* Close has returned
  quiet,      \* at rest with nothing wanted: nothing at all may happen
  conn,       \* connections: id -> [ph, ended, stop, shut]
  cur,        \* the connection announced and not yet terminated, 0 if none
  infl,       \* connection attempt in flight: "no", "live", "stopped"
  lst,        \* a listening socket is open
  lost        \* the last announced connection ended by the peer's doing

svars == <<auto, intent, calls, mayStop, unsettled, closing, closed, quiet, conn, cur, infl, lst, lost>>

Empty == [x \in {} |-> 0]

SInit == /\ intent = "none" /\ calls = Empty /\ mayStop = FALSE /\ unsettled = FALSE
         /\ closing = FALSE /\ closed = FALSE /\ quiet = TRUE /\ conn = Empty
         /\ cur = 0 /\ infl = "no" /\ lst = FALSE /\ lost = FALSE

Starts == {"dial", "listen"}
Stops == {"disc", "close"}
Ids == DOMAIN calls
PendStops == {i \in Ids : calls[i].op \in Stops}
PendStarts == {i \in Ids : calls[i].op \in Starts}
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Live(c) == c \in DOMAIN conn
OpenPeers(c) == {d \in DOMAIN conn \ {c} : conn[d].ph \in {"acc", "up"} /\ ~conn[d].shut}

(* ---- the user ---- *)
StartCall(i, op) ==
    /\ calls' = With(calls, i, [op |-> op, amb |-> unsettled \/ closing \/ lst \/ cur # 0 \/ PendStarts # {},
                                stop |-> closing, acc |-> FALSE, ref |-> FALSE, prev |-> intent, act |-> FALSE])
    /\ intent' = IF closing THEN "none" ELSE IF PendStops # {} THEN "maybe" ELSE op
    \* requests to stop that have returned do not end what is dialed from now on
    /\ mayStop' = (PendStops # {} \/ (unsettled /\ (op = "listen" \/ lst \/ PendStarts # {} \/ infl # "no")))
    /\ quiet' = closed
    /\ lost' = FALSE
    /\ UNCHANGED <<auto, unsettled, closing, closed, conn, cur, infl, lst>>

\* The result of Dial or Listen: "ok", "busy", "canceled" or "failed".
StartRet(i, res, unlimited) ==
    LET r == calls[i] IN
    /\ res = "ok" => On("C08", ~closed)
    /\ (res = "ok" /\ r.op = "dial") => On("C09", r.acc)
    /\ res = "busy" => On("C08", r.amb)
    /\ res = "canceled" => On("C08", r.stop \/ r.amb)
    /\ res = "failed" => On("C09", r.stop \/ r.amb \/ (r.ref /\ ~unlimited))
    /\ calls' = Without(calls, i)
    /\ (res # "ok" /\ r.op = "dial") => On("C09", infl # "live" \/ (auto /\ unsettled))
    \* a request that was turned down leaves things as they were
    /\ intent' = IF res = "ok" \/ intent \notin {r.op, "maybe"} \/ PendStarts # {i} THEN intent
                 ELSE IF r.stop THEN "none" ELSE r.prev
    /\ UNCHANGED <<auto, mayStop, unsettled, closing, closed, quiet, conn, cur, infl, lst, lost>>

StopCall(i, op) ==
    /\ calls' = [x \in Ids \cup {i} |-> IF x = i THEN [op |-> op, amb |-> FALSE, stop |-> FALSE, acc |-> FALSE, ref |-> FALSE, prev |-> "none", act |-> FALSE]
                                         ELSE [calls[x] EXCEPT !.stop = TRUE]]
    \* a request to start that has not had any effect yet may be the later of the two
    /\ intent' = IF op = "disc" /\ ~closing /\ (\E x \in PendStarts : ~calls[x].act) THEN "maybe" ELSE "none"
    /\ mayStop' = TRUE
    /\ unsettled' = TRUE
    /\ closing' = (closing \/ op = "close")
    /\ conn' = [c \in DOMAIN conn |-> [conn[c] EXCEPT !.stop = TRUE]]
    /\ infl' = IF infl = "live" THEN "stopped" ELSE infl
    /\ UNCHANGED <<auto, closed, quiet, cur, lst, lost>>

StopRet(i) ==
    LET cl == calls[i].op = "close" IN
    /\ cl => /\ On("C08", cur = 0)
             /\ On("C08", ~lst)
    /\ closed' = (closed \/ cl)
    /\ calls' = Without(calls, i)
    /\ UNCHANGED <<auto, intent, mayStop, unsettled, closing, quiet, conn, cur, infl, lst, lost>>

(* ---- the network ---- *)
Attempt ==
    /\ On("C08", ~closed /\ ~quiet)
    /\ On("C09", infl = "no")
    /\ On("C09", \/ \E i \in Ids : calls[i].op = "dial"
                 \/ (auto /\ intent \in {"dial", "maybe"} /\ cur = 0)
                 \/ unsettled)
    /\ infl' = IF mayStop THEN "stopped" ELSE "live"
    /\ calls' = [i \in Ids |-> IF calls[i].op = "dial" /\ ~calls[i].amb /\ calls[i].prev = "none" THEN [calls[i] EXCEPT !.act = TRUE] ELSE calls[i]]
    /\ UNCHANGED <<auto, intent, mayStop, unsettled, closing, closed, quiet, conn, cur, lst, lost>>

Dialed(c, ok) ==
    /\ infl' = "no"
    /\ calls' = [i \in Ids |-> IF calls[i].op = "dial" THEN IF ok THEN [calls[i] EXCEPT !.acc = TRUE] ELSE [calls[i] EXCEPT !.ref = TRUE] ELSE calls[i]]
    /\ conn' = IF ok THEN With(conn, c, [ph |-> "acc", ended |-> FALSE, stop |-> infl = "stopped", shut |-> FALSE]) ELSE conn
    /\ UNCHANGED <<auto, intent, mayStop, unsettled, closing, closed, quiet, cur, lst, lost>>

\* A publisher connects to the listening subscriber.
PubDial(c) ==
    /\ conn' = With(conn, c, [ph |-> "acc", ended |-> FALSE, stop |-> mayStop, shut |-> FALSE])
    /\ UNCHANGED <<auto, intent, calls, mayStop, unsettled, closing, closed, quiet, cur, infl, lst, lost>>

\* The publisher ends the connection (or breaks the protocol).
PeerEnds(c) ==
    /\ conn' = IF Live(c) THEN [conn EXCEPT ![c].ended = TRUE] ELSE conn
    /\ UNCHANGED <<auto, intent, calls, mayStop, unsettled, closing, closed, quiet, cur, infl, lst, lost>>

\* The subscriber closes its end: because the peer ended it, because it was asked to stop, or
\* because another publisher is already being served.  A reconnection that was under way when the
\* stop was requested may still be made, but is not announced.
Stale(c) == conn[c].ph = "acc" /\ auto /\ unsettled
Shut(c) ==
    /\ On("C28", conn[c].ended \/ conn[c].stop \/ conn[c].ph = "over" \/ (conn[c].ph = "acc" /\ OpenPeers(c) # {}) \/ Stale(c))
    /\ On("C07", conn[c].ph = "acc" => (conn[c].stop \/ OpenPeers(c) # {} \/ Stale(c)))
    /\ On("C08", ~quiet)
    /\ conn' = [conn EXCEPT ![c].shut = TRUE]
    /\ UNCHANGED <<auto, intent, calls, mayStop, unsettled, closing, closed, quiet, cur, infl, lst, lost>>

ListenerOpens ==
    /\ On("C28", \E i \in Ids : calls[i].op = "listen")
    /\ On("C08", ~closed)
    /\ lst' = TRUE
    /\ calls' = [i \in Ids |-> IF calls[i].op = "listen" THEN [calls[i] EXCEPT !.act = TRUE] ELSE calls[i]]
    /\ UNCHANGED <<auto, intent, mayStop, unsettled, closing, closed, quiet, conn, cur, infl, lost>>

ListenerCloses ==
    /\ On("C28", unsettled \/ mayStop)
    /\ lst' = FALSE
    /\ UNCHANGED <<auto, intent, calls, mayStop, unsettled, closing, closed, quiet, conn, cur, infl, lost>>

(* ---- what the user is told ---- *)
\* The connection c is announced; k: the subscriber says it is connected.
Established(c, k) ==
    /\ On("C07", cur = 0)
    /\ On("C07", k \/ conn[c].ended \/ conn[c].stop)
    /\ On("C08", ~closed /\ ~quiet)
    /\ cur' = c
    /\ conn' = [conn EXCEPT ![c].ph = "up"]
    /\ UNCHANGED <<auto, intent, calls, mayStop, unsettled, closing, closed, quiet, infl, lst, lost>>

Terminated(k) ==
    /\ On("C07", cur # 0)
    /\ On("C07", cur # 0 /\ (conn[cur].ended \/ conn[cur].stop))
    /\ On("C07", ~k)
    /\ On("C08", ~closed /\ ~quiet)
    /\ lost' = (cur # 0 /\ conn[cur].ended)
    /\ conn' = IF cur # 0 THEN [conn EXCEPT ![cur].ph = "over"] ELSE conn
    /\ cur' = 0
    /\ UNCHANGED <<auto, intent, calls, mayStop, unsettled, closing, closed, quiet, infl, lst>>

\* Measurements sent on connection c arrive.
Data(c) ==
    /\ On("C07", Live(c) /\ conn[c].ph \in {"acc", "up"} /\ (conn[c].ph = "acc" => cur = 0))
    /\ On("C08", ~closed /\ ~quiet)
    /\ UNCHANGED svars

(* ---- the subscriber seen at rest ---- *)
\* isConn, isLis: what it says; open: its open sockets; udp: its data channel sockets; port: the
\* port is bound; threads: its goroutines; persists: every attempt is made until the publisher accepts.
AtRest(isConn, isLis, open, udp, port, threads, persists) ==
    /\ On("C08", PendStops = {})
    /\ intent = "none" => /\ On("C08", PendStarts = {})
                          /\ On("C08", ~isConn /\ ~isLis /\ open = {} /\ ~port /\ threads = 0)
                          /\ On("C07", cur = 0)
    /\ On("C07", isConn <=> cur # 0)
    /\ On("C07", cur # 0 => ~conn[cur].ended)
    /\ On("C07", \A c \in open : Live(c) => conn[c].ph = "up")
    /\ On("C08", Cardinality(open) <= 1 /\ (cur = 0 => open = {} /\ udp = 0))
    /\ On("C08", infl = "no")
    /\ On("C28", isLis <=> lst)
    /\ On("C28", port <=> lst)
    \* no publisher that connected is left waiting
    /\ On("C28", lst => \A c \in DOMAIN conn : conn[c].ph # "acc" \/ conn[c].ended \/ conn[c].stop \/ conn[c].shut)
    /\ intent = "dial" => /\ On("C09", persists => PendStarts = {})
                          /\ On("C09", (cur = 0 /\ persists) => (~auto /\ lost))
    /\ intent = "maybe" => On("C08", persists => PendStarts = {})
    /\ intent = "listen" => /\ On("C28", lst)
                            /\ On("C28", PendStarts = {})
    /\ mayStop' = FALSE
    /\ unsettled' = FALSE
    /\ intent' = IF intent = "maybe" THEN (IF isLis THEN "listen" ELSE IF isConn THEN "dial" ELSE "none") ELSE intent
    /\ quiet' = (intent = "none")
    /\ conn' = [c \in {d \in DOMAIN conn : d \in open \/ d = cur} |-> [conn[c] EXCEPT !.stop = FALSE]]
    /\ UNCHANGED <<auto, calls, closing, closed, cur, infl, lst, lost>>
=============================================================================
