------------------------------ MODULE Request -------------------------------
(* What a publisher reads in the requests of a subscriber: the operational   *)
(* modes that open a connection, subscription requests (a connection string) *)
(* and metadata requests.                                                    *)
EXTENDS Text, FiniteSets

VARIABLES cfg,     \* configuration of the connection
          cur      \* settings of the subscription, as last given
rqvars == <<cfg, cur>>

(* ------- connection strings ------------------------------------------------ *)
\* Parts separated by semicolons outside braces.
Parts(t) ==
    LET r == FoldLeft(LAMBDA a, c :
                 IF c = 59 /\ a.d = 0 THEN [a EXCEPT !.done = Append(@, a.at), !.at = <<>>]
                 ELSE [a EXCEPT !.at = Append(@, c), !.d = IF c = 123 THEN @ + 1 ELSE IF c = 125 THEN @ - 1 ELSE @],
                 [done |-> <<>>, at |-> <<>>, d |-> 0], t)
    IN SelectSeq(Append(r.done, r.at), LAMBDA p : Trim(p) # <<>>)
Unbrace(t) == IF Len(t) >= 2 /\ t[1] = 123 /\ t[Len(t)] = 125 THEN SubSeq(t, 2, Len(t) - 1) ELSE t
\* [k, v] of a part; a part without "=" has no key.
Pair(p) == LET e == Find(p, <<61>>, 1)
           IN IF e = 0 THEN [k |-> <<>>, v |-> p]
              ELSE [k |-> Lower(Trim(SubSeq(p, 1, e - 1))), v |-> Unbrace(Trim(SubSeq(p, e + 1, Len(p))))]
Pairs(t) == LET ps == Parts(t) IN [i \in DOMAIN ps |-> Pair(ps[i])]
\* The value of each key; "bad" when a key is missing or repeated.
Readable(ps) == \A i \in DOMAIN ps : ps[i].k # <<>> /\ \A j \in DOMAIN ps : i # j => ps[i].k # ps[j].k
Values(ps) == [k \in {ps[i].k : i \in DOMAIN ps} |-> ps[CHOOSE i \in DOMAIN ps : ps[i].k = k].v]
KeysOf(t) == {Pairs(t)[i].k : i \in DOMAIN Pairs(t)}

\* A decimal number with up to six decimals, in millionths.
Pow10(n) == CASE n = 0 -> 1 [] n = 1 -> 10 [] n = 2 -> 100 [] n = 3 -> 1000 [] n = 4 -> 10000 [] n = 5 -> 100000 [] n = 6 -> 1000000
Dec(t) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, t)
Millionths(t) ==
    LET p == Find(t, <<46>>, 1)
        w == IF p = 0 THEN t ELSE SubSeq(t, 1, p - 1)
        f == IF p = 0 THEN <<48>> ELSE SubSeq(t, p + 1, Len(t))
    IN IF ~Digits(w) \/ ~Digits(f) \/ Len(w) > 4 \/ Len(f) > 6 THEN -1
       ELSE Dec(w) * 1000000 + Dec(f) * Pow10(6 - Len(f))

SaysBool(t, b) == Lower(t) = T(IF b THEN "true" ELSE "false")
SaysMillionths(t, n) == Millionths(t) = n
SaysInt(t, n) == t = T(ToString(n))

(* ------- subscriptions ------------------------------------------------------ *)
Always == {T("throttled"), T("publishinterval"), T("includetime"), T("enabletimereasonabilitycheck"), T("lagtime"), T("leadtime"),
           T("uselocalclockasrealtime"), T("processinginterval"), T("usemillisecondresolution"), T("requestnanvaluefilter"), T("assemblyinfo")}
Opt(k, present) == IF present THEN {T(k)} ELSE {}

\* The text t of a subscription request states the settings s and the source information a.
States(t, s, a) ==
    LET ps == Pairs(t)
        v == Values(ps)
        extra == Pairs(s.extra)
        ai == Pairs(v[T("assemblyinfo")])
    IN /\ Readable(ps)
       /\ DOMAIN v = Always \cup Opt("filterexpression", s.filter # <<>>) \cup Opt("datachannel", s.udp > 0)
                            \cup Opt("starttimeconstraint", s.start # <<>>) \cup Opt("stoptimeconstraint", s.stop # <<>>)
                            \cup Opt("timeconstraintparameters", s.params # <<>>) \cup {extra[i].k : i \in DOMAIN extra}
       /\ \A i \in DOMAIN extra : v[extra[i].k] = extra[i].v
       /\ SaysBool(v[T("throttled")], s.throttled)
       /\ SaysMillionths(v[T("publishinterval")], s.interval)
       /\ SaysBool(v[T("includetime")], s.time)
       /\ SaysBool(v[T("enabletimereasonabilitycheck")], s.check)
       /\ SaysMillionths(v[T("lagtime")], s.lag)
       /\ SaysMillionths(v[T("leadtime")], s.lead)
       /\ SaysBool(v[T("uselocalclockasrealtime")], s.clock)
       /\ SaysInt(v[T("processinginterval")], s.processing)
       /\ SaysBool(v[T("usemillisecondresolution")], s.ms)
       /\ SaysBool(v[T("requestnanvaluefilter")], s.nan)
       /\ Readable(ai) /\ Values(ai) = (T("source") :> a.source @@ T("version") :> a.version @@ T("updatedon") :> a.updated)
       /\ (s.filter # <<>> => v[T("filterexpression")] = s.filter)
       /\ (s.udp > 0 => LET d == Pairs(v[T("datachannel")]) IN Readable(d) /\ T("localport") \in DOMAIN Values(d) /\ SaysInt(Values(d)[T("localport")], s.udp))
       /\ (s.start # <<>> => v[T("starttimeconstraint")] = s.start)
       /\ (s.stop # <<>> => v[T("stoptimeconstraint")] = s.stop)
       /\ (s.params # <<>> => v[T("timeconstraintparameters")] = Unbrace(s.params))

\* A counted text.
Counted(b) == Len(b) >= 4 /\ b[1] = 0 /\ b[2] = 0 /\ b[3] * 256 + b[4] = Len(b) - 4

(* ------- operational modes -------------------------------------------------- *)
On(x, m) == (x \div m) % 2 = 1
ModesFor(b, c, udp) ==
    /\ Len(b) = 4
    /\ LET zip == IF c.ver < 10 THEN 32 ELSE 0
           tssc == IF c.ver < 10 /\ c.zdata /\ udp = 0 THEN 64 ELSE 0
       IN b[4] = c.ver + zip + tssc
    /\ b[3] = 2                \* UTF-8
    /\ b[2] = 0
    /\ On(b[1], 32) = (c.zdata /\ udp = 0)
    /\ On(b[1], 64) = c.zsic
    /\ On(b[1], 128) = c.zmeta
    /\ b[1] % 32 = 0

(* ------- behaviour ----------------------------------------------------------- *)
RqInit(c) == cfg = c /\ cur = c.settings
Given(s) == cur' = s /\ UNCHANGED cfg
OpensWith(b) == ModesFor(b, cfg, cur.udp) /\ UNCHANGED rqvars
Subscribes(b) == /\ Len(b) > 5 /\ b[1] = 2 /\ Counted(Tail(b))
                 /\ States(SubSeq(b, 6, Len(b)), cur, cfg.info)
                 /\ UNCHANGED rqvars
AsksMetadata(b) == /\ IF cfg.filters = <<>> THEN b = <<>> \/ b = <<0, 0, 0, 0>>
                      ELSE Counted(b) /\ SubSeq(b, 5, Len(b)) = cfg.filters
                   /\ UNCHANGED rqvars
=============================================================================
