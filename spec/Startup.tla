------------------------------ MODULE Startup -------------------------------
(* What a subscriber sends on a connection by itself and at the user's       *)
(* request: operational modes, metadata requests, subscriptions.             *)
(* The subscriber's threads that have something to send are its tasks; a     *)
(* task's decisions are silent steps, its commands are observed.             *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  opt,     \* [meta, sub, ver]: automatic metadata, automatic subscription, protocol version
  link,    \* current connection, 0 if none: its id
  ph,      \* "none", "new" (nothing sent), "modes" (stated its modes), "est" (announced), "ended"
  val,     \* the publisher's first response was processed
  subd,    \* subscribed, as far as the subscriber has heard
  pend,    \* a subscription is to be requested when val becomes true
  inbox,   \* what the publisher sent and the subscriber has not processed
  tasks,   \* id -> "sub" (to subscribe), "unsub+" (to unsubscribe, then subscribe), "send"
           \* (subscribe now), "meta" (request metadata), "unsub" (unsubscribe), "stop" (undecided unsubscribe)
  next,    \* next task id
  filts,   \* the filter expressions a subscription may carry now
  user     \* call id -> its task id (or 0): calls that have not returned

uvars == <<opt, link, ph, val, subd, pend, inbox, tasks, next, filts, user>>

Nothing == [x \in {} |-> 0]
UInit == /\ link = 0 /\ ph = "none" /\ val = FALSE /\ subd = FALSE /\ pend = FALSE
         /\ inbox = <<>> /\ tasks = Nothing /\ next = 1 /\ filts = {""} /\ user = Nothing

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Alive == ph \in {"modes", "est"}

(* ---- connections ---- *)
Opened(c) ==
    /\ ph \in {"none", "ended"}
    /\ link' = c /\ ph' = "new" /\ val' = FALSE /\ subd' = FALSE /\ pend' = FALSE /\ inbox' = <<>>
    /\ UNCHANGED <<opt, tasks, next, filts, user>>

Announced ==
    /\ ph \in {"modes", "ended"}
    /\ ph' = IF ph = "modes" THEN "est" ELSE ph
    /\ LET k == IF opt.meta THEN "meta" ELSE IF opt.sub THEN "sub" ELSE "no" IN
       IF k = "no" THEN UNCHANGED <<tasks, next>>
       ELSE tasks' = Put(tasks, next, k) /\ next' = next + 1
    /\ UNCHANGED <<opt, link, val, subd, pend, inbox, filts, user>>

\* The publisher ends the connection: whatever was to be sent may or may not be.
Ends == /\ ph' = "ended" /\ UNCHANGED <<opt, link, val, subd, pend, inbox, tasks, next, filts, user>>

(* ---- the publisher's messages ---- *)
Sends(m) == /\ inbox' = Append(inbox, m)
            /\ UNCHANGED <<opt, link, ph, val, subd, pend, tasks, next, filts, user>>

\* The subscriber processes the next message.
Process ==
    /\ inbox # <<>>
    /\ inbox' = Tail(inbox)
    /\ LET m == Head(inbox)
           first == ~val
           late == first /\ pend          \* the delayed subscription is due
           new == (IF late THEN <<"sub">> ELSE <<>>) \o
                  (CASE m = "meta" -> IF opt.meta /\ opt.sub THEN <<"sub">> ELSE <<>>
                     [] m = "changed" -> IF opt.meta THEN <<"meta">> ELSE <<>>
                     [] OTHER -> <<>>)
       IN /\ val' = TRUE
          /\ pend' = (pend /\ ~first)
          /\ subd' = (IF m = "subscribed" THEN TRUE ELSE IF m = "unsubscribed" THEN FALSE ELSE subd)
          /\ tasks' = [x \in DOMAIN tasks \cup {next + j - 1 : j \in 1 .. Len(new)} |->
                          IF x \in DOMAIN tasks THEN tasks[x] ELSE new[x - next + 1]]
          /\ next' = next + Len(new)
    /\ UNCHANGED <<opt, link, ph, filts, user>>

(* ---- the user's calls ---- *)
UserCall(i, op, f) ==
    /\ tasks' = Put(tasks, next, CASE op = "sub" -> "sub" [] op = "unsub" -> "stop" [] op = "meta" -> "meta")
    /\ next' = next + 1
    /\ user' = Put(user, i, next)
    /\ filts' = IF op = "sub" THEN filts \cup {f} ELSE filts
    /\ UNCHANGED <<opt, link, ph, val, subd, pend, inbox>>

UserRet(i, op, f) ==
    /\ user[i] \notin DOMAIN tasks
    /\ user' = Drop(user, i)
    /\ filts' = IF op = "sub" /\ DOMAIN user = {i} THEN {f} ELSE filts
    /\ UNCHANGED <<opt, link, ph, val, subd, pend, inbox, tasks, next>>

(* ---- tasks ---- *)
\* A task about to subscribe looks at the state of the connection.
Decide(t) ==
    /\ tasks[t] = "sub"
    /\ IF opt.ver >= 2 /\ ~val THEN pend' = TRUE /\ tasks' = Drop(tasks, t)
       ELSE pend' = pend /\ tasks' = [tasks EXCEPT ![t] = IF subd THEN "unsub+" ELSE "send"]
    /\ UNCHANGED <<opt, link, ph, val, subd, inbox, next, filts, user>>

\* A task about to unsubscribe: nothing is sent before the publisher has responded.
Decide2(t) ==
    /\ tasks[t] = "stop"
    /\ pend' = FALSE
    /\ tasks' = IF val THEN [tasks EXCEPT ![t] = "unsub"] ELSE Drop(tasks, t)
    /\ UNCHANGED <<opt, link, ph, val, subd, inbox, next, filts, user>>

\* A task finds the connection gone, or not there yet.
GiveUp(t) ==
    /\ t \in DOMAIN tasks
    /\ ph # "est"
    /\ tasks' = Drop(tasks, t)
    /\ UNCHANGED <<opt, link, ph, val, subd, pend, inbox, next, filts, user>>

(* ---- commands, as observed on the wire ---- *)
SendModes(c) == /\ ph \in {"new", "ended"} /\ c = link
                /\ ph' = IF ph = "new" THEN "modes" ELSE ph
                /\ UNCHANGED <<opt, link, val, subd, pend, inbox, tasks, next, filts, user>>

\* A task's command; what becomes of the task.
SendBy(c, t, from, to) ==
    /\ ph # "new" /\ c = link
    /\ tasks[t] = from
    /\ tasks' = IF to = "" THEN Drop(tasks, t) ELSE [tasks EXCEPT ![t] = to]
    /\ UNCHANGED <<opt, link, ph, val, subd, pend, inbox, next, filts, user>>

SendMetadata(c) == \E t \in DOMAIN tasks : SendBy(c, t, "meta", "")
SendSubscribe(c, f) == f \in filts /\ \E t \in DOMAIN tasks : SendBy(c, t, "send", "")
SendUnsubscribe(c) == \E t \in DOMAIN tasks : SendBy(c, t, "unsub", "") \/ SendBy(c, t, "unsub+", "send")

\* All threads wait: everything was processed and sent.
Rest(isVal, isSubd) ==
    /\ ph = "est" => /\ inbox = <<>> /\ tasks = Nothing
                     /\ isVal = val /\ isSubd = subd
                     /\ ~(pend /\ val)
    /\ ph # "new" /\ ph # "modes"
    /\ UNCHANGED uvars

Silent == \/ (ph # "ended" /\ Process)
          \/ \E t \in DOMAIN tasks : Decide(t) \/ Decide2(t) \/ GiveUp(t)
=============================================================================
