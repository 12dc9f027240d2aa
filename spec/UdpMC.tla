------------------------------- MODULE UdpMC --------------------------------
(* Udp.tla explored: a publisher that sends caches on the command channel    *)
(* and data packets and blocks as datagrams, an application that subscribes  *)
(* again and unsubscribes.  The invariants compare what is delivered with    *)
(* the history of what was sent.                                             *)
EXTENDS Udp, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)    \* messages and calls in a history
Plans == IOEnv.EAGER = "1"    \* histories are printed to be replayed; nothing is handled

VARIABLES past,     \* everything done so far
          told,     \* deliveries seen: [k, n (which), at (things done by then)]
          low,      \* for each thing done: the caches <<slot 0, slot 1>> handled by then
          lossy,    \* datagrams sent so far that may have been lost
          req       \* the request is due

mc == <<uvars, past, told, low, lossy, req>>
AllKinds == {"data", "block", "blk", "cache", "upd", "active", "bytes"}

ID(n) == [i \in 1 .. 16 |-> n * 16 + i - 1]
U8(n) == Zeros(4) \o Bytes4(n)
Rec(i, n) == Bytes4(i) \o ID(n) \o Bytes4(1) \o <<83>> \o U8(i)
CacheSym == [A0 |-> [slot |-> 0, n |-> 1], B0 |-> [slot |-> 0, n |-> 2], C1 |-> [slot |-> 1, n |-> 3]]
M(code, b) == [code |-> code, cmd |-> 2, b |-> b, udp |-> FALSE, n |-> 10 + Len(b), key |-> <<>>, iv |-> <<>>, len |-> 0,
               slot |-> 0, ok |-> TRUE, text |-> "", hash |-> <<>>, rows |-> <<>>]
Syms == DOMAIN CacheSym \cup {"D0", "D1", "blk"}
NBlocks == Cardinality({j \in DOMAIN past : past[j].sym = "blk"})
K == Len(past) + 1
Make(s) ==
    CASE s \in DOMAIN CacheSym -> [M(131, Bytes4(25) \o ID(15) \o Bytes4(1) \o Rec(1, CacheSym[s].n)) EXCEPT !.slot = CacheSym[s].slot]
      [] s \in {"D0", "D1"} -> [M(130, <<IF s = "D0" THEN 2 ELSE 18>> \o Bytes4(1) \o <<0>> \o Bytes4(1) \o <<64, 0, 0, K>> \o U8(K)) EXCEPT !.udp = TRUE]
      [] s = "blk" -> [M(136, Bytes4(NBlocks) \o <<0>> \o Bytes4(1) \o <<K>>) EXCEPT !.udp = TRUE]

MCInit == /\ opt = [ver |-> 2, time |-> TRUE, ms |-> FALSE, swap |-> FALSE] /\ ph = "up" /\ fatal = FALSE /\ needErr = FALSE /\ valid = TRUE /\ subscribed = FALSE
          /\ slot = <<NoCache, NoCache>> /\ active = 1 /\ subid = <<>> /\ base = <<Zeros(8), Zeros(8)>> /\ keys = <<>>
          /\ blk = NoBlocks /\ due = <<>> /\ bag = {} /\ bytes = 0 /\ meas = 0 /\ known = <<>>
          /\ qt = <<>> /\ qu = <<>> /\ chan = "open" /\ dbytes = 0
          /\ past = <<>> /\ told = <<>> /\ low = <<>> /\ lossy = {} /\ req = FALSE

Plan == IF Plans /\ K = Depth THEN PrintT("PLAN " \o ToJson(past')) ELSE TRUE
Now == <<IDOf(slot[1], Bytes4(1)), IDOf(slot[2], Bytes4(1))>>
Did(x) == past' = Append(past, x) /\ low' = Append(low, Now) /\ Plan

Send == /\ Len(past) < Depth /\ ~req
        /\ \E s \in Syms : \E m \in {Make(s)} :
             /\ Did([sym |-> s, m |-> m])
             /\ IF Plans THEN UNCHANGED uvars /\ UNCHANGED lossy
                ELSE IF m.udp THEN SendU(m, chan # "closed") /\ lossy' = (IF chan = "open" THEN lossy ELSE lossy \cup {K})
                ELSE SendT(m) /\ UNCHANGED lossy
        /\ UNCHANGED <<told, req>>
Ask == /\ Len(past) < Depth /\ ~req
       /\ \E o \in {"sub", "unsub"} :
            /\ Did([sym |-> o])
            /\ IF Plans THEN UNCHANGED <<uvars, req, lossy>>
               ELSE Call /\ req' = TRUE /\ lossy' = DOMAIN past
       /\ UNCHANGED told
Answer == /\ req /\ req' = FALSE
          /\ IF past[Len(past)].sym = "sub" THEN Requested ELSE Unsubscribed
          /\ UNCHANGED <<past, told, low, lossy>>
Handle == (HandleT \/ HandleU \/ Lose) /\ UNCHANGED <<past, told, low, lossy, req>>
Which == IF due[1].k = "data" THEN due[1].x[1].v[4] ELSE due[1].x.p[1]
Deliver == /\ due # <<>>
           /\ IF due[1].k = "block" THEN DeliveredBlocks(<<due[1].x>>) ELSE Delivered("data", due[1].x, 1)
           /\ told' = Append(told, [n |-> Which, at |-> Len(past), id |-> IF due[1].k = "data" THEN due[1].x[1].id ELSE due[1].x.id])
           /\ Others2 /\ UNCHANGED <<past, low, lossy, req>>
Report == /\ bag # {}
          /\ LET e == CHOOSE e \in bag : \A f \in bag : e.n <= f.n IN Reported(e.k, e.x)
          /\ Others2 /\ UNCHANGED <<past, told, low, lossy, req>>
\* Reports can happen at any time; one is enough here.
MCNext == IF bag # {} THEN Report ELSE Send \/ Ask \/ (~Plans /\ (Answer \/ Handle \/ Deliver))

(* ------- the guarantees ------------------------------------------------------ *)
\* In order, at most once.
Ordered == \A i, j \in DOMAIN told : i < j => told[i].n < told[j].n
SlotOf(n) == IF past[n].sym = "D1" THEN 1 ELSE 0
\* By a cache that was in effect when the datagram was sent, or that came later.
Later(n, k) == {ID(CacheSym[past[j].sym].n) : j \in {j \in 1 .. k : past[j].sym \in DOMAIN CacheSym /\ CacheSym[past[j].sym].slot = SlotOf(n)}}
Mapped == \A i \in DOMAIN told : told[i].id \in {low[told[i].n][1 + SlotOf(told[i].n)]} \cup Later(told[i].n, told[i].at)
\* Nothing is lost while the channel is open: a packet that could be resolved when it was sent is delivered.
Idle == qt = <<>> /\ qu = <<>> /\ due = <<>>
Complete == Idle => \A n \in DOMAIN past :
    past[n].sym \in {"D0", "D1"} /\ n \notin lossy /\ low[n][1 + SlotOf(n)] # NoID => \E i \in DOMAIN told : told[i].n = n
NeverBroken == ph = "up" /\ ~fatal /\ ~needErr
=============================================================================
