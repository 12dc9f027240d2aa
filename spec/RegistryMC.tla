----------------------------- MODULE RegistryMC -----------------------------
(* Registry.tla explored with a map that is searched and, when the signal is *)
(* missing, filled unless another lookup was faster: whatever the order of   *)
(* these steps, lookups, metadata and caches, the lookups return what        *)
(* Registry.tla allows.                                                      *)
EXTENDS Registry, TLC
CONSTANTS Threads, Signals, MaxSteps
VARIABLES map,   \* signal -> object, as kept
          pc,    \* thread -> [at, s, p]
          next,  \* next new object
          n,     \* messages so far
          met    \* signals whose source metadata has set
mc == <<rvars, map, pc, next, n, met>>
Idle == [at |-> "idle", s |-> 0, p |-> 0]
MCInit == RInit /\ map = None /\ pc = [t \in Threads |-> Idle] /\ next = 1 /\ n = 0 /\ met = {}
Connect == ~up /\ gen < 2 /\ (\A t \in Threads : pc[t].at = "idle") /\ Begin /\ map' = None /\ met' = {} /\ UNCHANGED <<pc, next, n>>
Cut == up /\ gen < 2 /\ End /\ UNCHANGED <<map, pc, next, n, met>>
Start(t, s) == pc[t].at = "idle" /\ next < MaxSteps /\ Call(t, s) /\ pc' = [pc EXCEPT ![t] = [at |-> "load", s |-> s, p |-> 0]] /\ UNCHANGED <<map, next, n, met>>
Load(t) == /\ pc[t].at = "load"
           /\ pc' = [pc EXCEPT ![t] = IF pc[t].s \in DOMAIN map THEN [@ EXCEPT !.at = "ret", !.p = map[pc[t].s]] ELSE [@ EXCEPT !.at = "store"]]
           /\ UNCHANGED <<rvars, map, next, n, met>>
Store(t) == /\ pc[t].at = "store"
            /\ LET s == pc[t].s IN
               /\ map' = IF s \in DOMAIN map THEN map ELSE Upd(map, s, next)
               /\ next' = next + 1
               /\ pc' = [pc EXCEPT ![t] = [@ EXCEPT !.at = "ret", !.p = map'[s]]]
            /\ UNCHANGED <<rvars, n, met>>
\* The return has to be one that is allowed.
Ret(t) == /\ pc[t].at = "ret"
          /\ Assert(ENABLED Return(t, pc[t].p), <<"not allowed", t, pc[t].p>>)
          /\ Return(t, pc[t].p)
          /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<map, next, n, met>>
Num(k) == <<0, 0, 0, 0, 0, 0, 0, k>>
Meta(s) == n < 2 /\ up /\ n' = n + 1 /\ met' = met \cup {s}
           /\ Metadata(<<[s |-> s, key |-> TRUE, src |-> "M", num |-> Num(n), tag |-> "t", ref |-> "r", type |-> "y", desc |-> "d", upd |-> <<>>]>>, {"SignalID", "ID"})
           /\ UNCHANGED <<map, pc, next>>
Sic(s) == n < 2 /\ up /\ n' = n + 1 /\ Cache(<<[s |-> s, src |-> "C", num |-> Num(n)]>>) /\ UNCHANGED <<map, pc, next, met>>
MCNext == Connect \/ Cut \/ \E t \in Threads : Load(t) \/ Store(t) \/ Ret(t) \/ (\E s \in Signals : Start(t, s))
          \/ \E s \in Signals : Meta(s) \/ Sic(s)
\* A cache never overrides what metadata set.
Kept == \A s \in met : Of(s).src = "M"
\* Different signals have different objects.
Apart == \A s, r \in DOMAIN rec : rec[s] = rec[r] => s = r
=============================================================================
