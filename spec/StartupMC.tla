----------------------------- MODULE StartupMC ------------------------------
(* Startup.tla explored with every publisher that answers each command once, *)
(* announces configuration changes and ends connections, and with a user.    *)
EXTENDS Startup
CONSTANTS MaxConn, MaxChanges, MaxCalls
VARIABLES nsub, nmeta, nrsp, nchg, ncall, ask, early, odd
\* commands sent on this connection, metadata and changes processed on it, user calls so far,
\* unanswered commands; a task of an earlier connection or of the user acted on this one
mcv == <<uvars, nsub, nmeta, nrsp, nchg, ncall, ask, early, odd>>
Counters == <<nsub, nmeta, nrsp, nchg, ncall, ask, early, odd>>
MCInit == /\ UInit /\ nsub = 0 /\ nmeta = 0 /\ nrsp = 0 /\ nchg = 0 /\ ncall = 0 /\ ask = <<>> /\ early = 0 /\ odd = FALSE
          /\ opt \in [meta : BOOLEAN, sub : BOOLEAN, ver : {1, 2}]
MCNext ==
    \/ link < MaxConn /\ Opened(link + 1) /\ nsub' = 0 /\ nmeta' = 0 /\ nrsp' = 0 /\ nchg' = 0 /\ ask' = <<>> /\ early' = 0 /\ odd' = (tasks # Nothing) /\ UNCHANGED ncall
    \/ ph = "modes" /\ Announced /\ UNCHANGED Counters
    \/ ph = "est" /\ Ends /\ UNCHANGED Counters
    \/ ph = "new" /\ SendModes(link) /\ ask' = <<"modes">> /\ UNCHANGED <<nsub, nmeta, nrsp, nchg, ncall, early, odd>>
    \/ ph # "ended" /\ SendMetadata(link) /\ nmeta' = nmeta + 1 /\ ask' = Append(ask, "meta") /\ UNCHANGED <<nsub, nrsp, nchg, ncall, early, odd>>
    \/ ph # "ended" /\ SendSubscribe(link, CHOOSE f \in filts : TRUE) /\ nsub' = nsub + 1 /\ ask' = Append(ask, "subscribed") /\ UNCHANGED <<nmeta, nrsp, nchg, ncall, early, odd>>
    \/ ph # "ended" /\ SendUnsubscribe(link) /\ ask' = Append(ask, "unsubscribed") /\ UNCHANGED <<nsub, nmeta, nrsp, nchg, ncall, early, odd>>
    \/ ph # "ended" /\ ask # <<>> /\ (IF ask[1] = "modes" THEN opt.ver > 1 ELSE TRUE) /\ Sends(ask[1]) /\ ask' = Tail(ask) /\ UNCHANGED <<nsub, nmeta, nrsp, nchg, ncall, early, odd>>
    \/ ph = "est" /\ ask # <<>> /\ ask[1] = "modes" /\ opt.ver = 1 /\ ask' = Tail(ask) /\ UNCHANGED <<uvars, nsub, nmeta, nrsp, nchg, ncall, early, odd>>
    \/ ph = "est" /\ early < MaxChanges /\ (IF opt.ver = 1 \/ ask = <<>> THEN TRUE ELSE ask[1] # "modes") /\ Sends("changed") /\ early' = early + 1 /\ UNCHANGED <<nsub, nmeta, nrsp, nchg, ncall, ask, odd>>
    \/ ph # "ended" /\ Process /\ nrsp' = nrsp + (IF Head(inbox) = "meta" THEN 1 ELSE 0) /\ nchg' = nchg + (IF Head(inbox) = "changed" THEN 1 ELSE 0) /\ UNCHANGED <<nsub, nmeta, ncall, ask, early, odd>>
    \/ (\E t \in DOMAIN tasks : Decide(t) \/ Decide2(t) \/ GiveUp(t)) /\ UNCHANGED Counters
    \/ ncall < MaxCalls /\ (\E op \in {"sub", "unsub", "meta"} : UserCall(1, op, "u")) /\ user = Nothing /\ ncall' = ncall + 1 /\ odd' = TRUE /\ UNCHANGED <<nsub, nmeta, nrsp, nchg, ask, early>>
    \/ (\E i \in DOMAIN user : UserRet(i, "sub", "u")) /\ UNCHANGED Counters
\* Seen at rest without user calls, exactly the configured commands were sent.
Quiet == ph = "est" /\ inbox = <<>> /\ tasks = Nothing /\ ask = <<>> /\ val
Expected == (Quiet /\ ~odd) =>
    /\ nmeta = IF opt.meta THEN 1 + nchg ELSE 0
    /\ nsub = IF ~opt.sub THEN 0 ELSE IF opt.meta THEN nrsp ELSE 1
    /\ nrsp = nmeta
    /\ subd = (nsub > 0)
Small == next <= 9
=============================================================================
