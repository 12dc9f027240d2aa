---------------------------- MODULE CallbacksMC -----------------------------
(* Callbacks.tla explored: an implementation that looks the receiver up      *)
(* between occurrence and delivery is always allowed to deliver.             *)
EXTENDS Callbacks
CONSTANTS Gens, MaxEvents
VARIABLES inst,      \* what is really installed
          setting,   \* the call in progress, or 0
          next, look \* events so far; event -> the receiver looked up
mc == <<cvars, inst, setting, next, look>>
MCInit == poss = [k \in {"a"} |-> {1}] /\ pend = {} /\ depth = 0 /\ inst = 1 /\ setting = 99 /\ next = 0 /\ look = [x \in {} |-> 0]
Begin == setting = 99 /\ \E g \in Gens : SetCall("a", g) /\ setting' = g /\ UNCHANGED <<inst, next, look>>
Effect == setting # 99 /\ inst # setting /\ inst' = setting /\ UNCHANGED <<cvars, setting, next, look>>
Done == setting # 99 /\ inst = setting /\ SetDone("a", setting) /\ setting' = 99 /\ UNCHANGED <<inst, next, look>>
Occur == next < MaxEvents /\ Occurs("a", next, next) /\ next' = next + 1 /\ UNCHANGED <<inst, setting, look>>
Look == \E p \in pend : p.id \notin DOMAIN look /\ look' = [x \in DOMAIN look \cup {p.id} |-> IF x = p.id THEN inst ELSE look[x]]
                        /\ UNCHANGED <<cvars, inst, setting, next>>
Deliver == \E i \in DOMAIN look : look[i] # 0 /\ Delivered("a", i, look[i]) /\ look' = [look EXCEPT ![i] = 0] /\ UNCHANGED <<inst, setting, next>>
Return == Returns /\ UNCHANGED <<inst, setting, next, look>>
MCNext == Begin \/ Effect \/ Done \/ Occur \/ Look \/ Deliver \/ Return
\* The receiver looked up is among the possible ones.
Sound == /\ inst \in poss["a"]
         /\ \A p \in pend : p.id \in DOMAIN look => look[p.id] \in p.gens
=============================================================================
