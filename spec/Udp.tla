-------------------------------- MODULE Udp ---------------------------------
(* A subscription with a UDP data channel: data packets and buffer blocks    *)
(* come as datagrams, everything else on the command channel, and the two    *)
(* are handled side by side.  Each channel is handled in order, one message  *)
(* at a time, each message as a whole (Stream.tla says what it does).        *)
EXTENDS Stream

VARIABLES
    qt, qu,     \* messages on their way on the command channel, on the data channel
    chan,       \* the data channel: "closed", "open", "flux" (being opened or closed)
    dbytes      \* bytes of the datagrams handled on this connection

uvars == <<mvars, qt, qu, chan, dbytes>>

UInit(o) == MInit(o) /\ qt = <<>> /\ qu = <<>> /\ chan = "closed" /\ dbytes = 0

\* A connection is set up; the subscription is asked for when the publisher has answered.
UConnected == Connected /\ qt' = <<>> /\ qu' = <<>> /\ chan' = "flux" /\ dbytes' = 0

Keep == UNCHANGED <<mvars, dbytes>>
SendT(m) == qt' = Append(qt, m) /\ Keep /\ UNCHANGED <<qu, chan>>
\* A datagram is sent; got: there was a socket to receive it.
SendU(m, got) ==
    /\ chan = "open" => got
    /\ chan = "closed" => ~got
    /\ qu' = IF got THEN Append(qu, m) ELSE qu
    /\ Keep /\ UNCHANGED <<qt, chan>>

HandleT == /\ qt # <<>> /\ Message(Head(qt)) /\ qt' = Tail(qt) /\ UNCHANGED <<qu, chan, dbytes>>
HandleU == /\ qu # <<>> /\ Message(Head(qu)) /\ qu' = Tail(qu) /\ dbytes' = dbytes + Head(qu).n - 4 /\ UNCHANGED <<qt, chan>>
\* Datagrams not yet handled are lost when the socket is closed, except one that is being handled.
Left == IF qu = <<>> THEN {qu} ELSE {<<>>, <<Head(qu)>>}
Lose == chan = "flux" /\ qu # <<>> /\ qu' \in Left \ {qu} /\ Keep /\ UNCHANGED <<qt, chan>>

\* The application asks to subscribe (again) or to unsubscribe.
Call == chan' = "flux" /\ Keep /\ UNCHANGED <<qt, qu>>
\* The request to subscribe is on its way: the socket it names is there.
Requested == Recount /\ chan' = "open" /\ UNCHANGED <<qt, qu, dbytes>>
\* Unsubscribing is done.
Unsubscribed == /\ chan' = (IF ph = "up" /\ chan = "flux" THEN "closed" ELSE chan)
                /\ qu' \in (IF ph = "up" /\ chan = "flux" THEN Left ELSE {qu}) /\ Keep /\ UNCHANGED <<qt>>

UEnding == Ending /\ chan' = "flux" /\ UNCHANGED <<qt, qu, dbytes>>
UGone == Gone /\ chan' = "closed" /\ qt' = <<>> /\ qu' = <<>> /\ UNCHANGED dbytes

Others2 == UNCHANGED <<qt, qu, chan, dbytes>>
URest(q) == /\ ph = "up" => qt = <<>> /\ qu = <<>> /\ q.dbytes = dbytes
            /\ Rest(q) /\ Others2
=============================================================================
