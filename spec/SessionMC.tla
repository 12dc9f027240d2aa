----------------------------- MODULE SessionMC ------------------------------
(* Exploring Session: every interleaving of a few calls, connections and     *)
(* losses, to check that the guards together give the properties stated.     *)
EXTENDS Session
CONSTANTS MaxCalls, MaxConns
VARIABLES ncalls, nconns, ups, downs

mvars == <<svars, ncalls, nconns, ups, downs>>

MInit == SInit /\ auto \in BOOLEAN /\ ncalls = 0 /\ nconns = 0 /\ ups = 0 /\ downs = 0
Same == UNCHANGED <<ncalls, nconns, ups, downs>>

MNext ==
    \/ /\ ncalls < MaxCalls /\ ncalls' = ncalls + 1 /\ UNCHANGED <<nconns, ups, downs>>
       /\ \/ \E op \in Starts : PendStarts = {} /\ StartCall(ncalls', op)
          \/ \E op \in Stops : StopCall(ncalls', op)
    \/ \E i \in PendStarts : \E res \in {"ok", "busy", "canceled", "failed"} : StartRet(i, res, TRUE) /\ Same
    \/ \E i \in PendStops : StopRet(i) /\ Same
    \/ Attempt /\ Same
    \/ infl # "no" /\ nconns < MaxConns /\ nconns' = nconns + 1 /\ Dialed(nconns', TRUE) /\ UNCHANGED <<ncalls, ups, downs>>
    \/ infl # "no" /\ Dialed(0, FALSE) /\ Same
    \/ lst /\ nconns < MaxConns /\ nconns' = nconns + 1 /\ PubDial(nconns') /\ UNCHANGED <<ncalls, ups, downs>>
    \/ \E c \in DOMAIN conn : ~conn[c].ended /\ PeerEnds(c) /\ Same
    \/ \E c \in DOMAIN conn : ~conn[c].shut /\ Shut(c) /\ Same
    \/ ~lst /\ ListenerOpens /\ Same
    \/ lst /\ ListenerCloses /\ Same
    \/ \E c \in DOMAIN conn, k \in BOOLEAN : conn[c].ph = "acc" /\ ~conn[c].shut /\ Established(c, k) /\ ups' = ups + 1 /\ UNCHANGED <<ncalls, nconns, downs>>
    \/ \E k \in BOOLEAN : Terminated(k) /\ downs' = downs + 1 /\ UNCHANGED <<ncalls, nconns, ups>>
    \/ LET open == {c \in DOMAIN conn : ~conn[c].shut} IN
       unsettled /\ AtRest(cur # 0, lst, open, 0, lst, Cardinality(open), TRUE) /\ Same

(* C07 *) Alternate == ups - downs = (IF cur # 0 THEN 1 ELSE 0)
(* C07 *) OneAtATime == Cardinality({c \in DOMAIN conn : conn[c].ph = "up"}) <= 1
(* C08 *) NothingAfterClose == closed => cur = 0 /\ ~lst
(* C08 *) RestIsRest == quiet => cur = 0 /\ intent = "none"
(* C09 *) NoUnwantedAttempt == infl = "live" => intent # "none" \/ PendStarts # {} \/ unsettled
=============================================================================
