----------------------------- MODULE RequestMC ------------------------------
(* Request.tla explored: a request written in any of several ways states the *)
(* settings it was written from, and no other ones.                          *)
EXTENDS Request

VARIABLE other    \* settings that differ in one respect

Bool(b) == T(IF b THEN "true" ELSE "false")
Base == [throttled |-> FALSE, interval |-> 1000000, time |-> TRUE, check |-> FALSE, lag |-> 10000000, lead |-> 5000000, clock |-> FALSE,
         processing |-> -1, ms |-> FALSE, nan |-> FALSE, filter |-> T("FILTER X WHERE A = 'b;c'"), udp |-> 0, start |-> <<>>, stop |-> <<>>,
         params |-> <<>>, extra |-> <<>>]
Differ(s) == {[s EXCEPT !.throttled = ~@], [s EXCEPT !.interval = 33333], [s EXCEPT !.time = ~@], [s EXCEPT !.check = ~@],
              [s EXCEPT !.lag = 10000001], [s EXCEPT !.lead = 500000], [s EXCEPT !.clock = ~@], [s EXCEPT !.processing = 0],
              [s EXCEPT !.ms = ~@], [s EXCEPT !.nan = ~@], [s EXCEPT !.filter = T("{a};{b}")], [s EXCEPT !.filter = <<>>],
              [s EXCEPT !.udp = 9600], [s EXCEPT !.start = T("*-5m")], [s EXCEPT !.stop = T("2024-01-01 00:00:00")],
              [s EXCEPT !.params = T("{a=1;b=2}")], [s EXCEPT !.params = T("speed")], [s EXCEPT !.extra = T("x=1; Y = {p;q}")]}
Info == [source |-> T("S"), version |-> T("1.0"), updated |-> T("now")]
Number(n) == T(ToString(n \div 1000000)) \o T(".") \o SubSeq(T(ToString(1000000 + (n % 1000000))), 2, 7)
Add(cond, t) == IF cond THEN T(";") \o t ELSE <<>>
Written(s) ==
    T("Throttled=") \o Bool(s.throttled) \o T(";publishInterval=") \o Number(s.interval) \o T(";includeTime=") \o Bool(s.time)
    \o T(";enableTimeReasonabilityCheck=") \o Bool(s.check) \o T(";lagTime=") \o Number(s.lag) \o T("; leadTime = ") \o Number(s.lead)
    \o T(";useLocalClockAsRealTime=") \o Bool(s.clock) \o T(";processingInterval=") \o T(ToString(s.processing))
    \o T(";useMillisecondResolution=") \o Bool(s.ms) \o T(";requestNaNValueFilter=") \o Bool(s.nan)
    \o T(";assemblyInfo={source=S;version=1.0;updatedOn=now}")
    \o Add(s.filter # <<>>, T("filterExpression={") \o s.filter \o T("}"))
    \o Add(s.udp > 0, T("dataChannel={localport=") \o T(ToString(s.udp)) \o T("}"))
    \o Add(s.start # <<>>, T("startTimeConstraint=") \o s.start) \o Add(s.stop # <<>>, T("stopTimeConstraint=") \o s.stop)
    \o Add(s.params # <<>>, T("timeConstraintParameters=") \o s.params) \o Add(s.extra # <<>>, s.extra)

Configs == [ver : {1, 2, 9, 10}, zdata : BOOLEAN, zsic : BOOLEAN, zmeta : BOOLEAN]
Modes(c, udp) == <<(IF c.zdata /\ udp = 0 THEN 32 ELSE 0) + (IF c.zsic THEN 64 ELSE 0) + (IF c.zmeta THEN 128 ELSE 0), 0, 2,
                   c.ver + (IF c.ver < 10 THEN 32 ELSE 0) + (IF c.ver < 10 /\ c.zdata /\ udp = 0 THEN 64 ELSE 0)>>

MCInit == /\ cfg = [info |-> Info, settings |-> Base, filters |-> <<>>]
          /\ cur \in {Base} \cup Differ(Base) \cup UNION {Differ(s) : s \in Differ(Base)}
          /\ other \in Differ(cur) \ {cur}
MCNext == UNCHANGED <<cfg, cur, other>>
SaysIt == States(Written(cur), cur, Info)
SaysNoOther == States(Written(cur), other, Info) => Unbrace(other.params) = Unbrace(cur.params) /\ other.params # cur.params
Effective(c, u) == [c EXCEPT !.zdata = @ /\ u = 0]
ModesTold == \A c \in Configs, u \in {0, 9600}, d \in Configs, w \in {0, 9600} :
                ModesFor(Modes(c, u), d, w) <=> (Effective(c, u) = Effective(d, w))
ASSUME ModesTold
=============================================================================
