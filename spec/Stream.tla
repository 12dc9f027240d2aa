------------------------------- MODULE Stream -------------------------------
(* What the messages of a publisher stand for.  A connection carries whole   *)
(* messages, in order; each is handled completely before the next one.  The  *)
(* effects of a message are put in `due' (deliveries made in order) or in    *)
(* `bag' (reports and confirmations whose order is open); the application    *)
(* and the publisher then observe them.                                      *)
EXTENDS Tssc, FiniteSets

CONSTANT Watched          \* kinds of effects that are being judged

VARIABLES
    opt,        \* options: protocol version, time options, byte order of GUIDs
    ph,         \* "none", "up", "ending" (the connection is ending: what is on its way may be lost),
                \* "wild" (the peer sent something that is no message: anything, except a failure)
    fatal,      \* the connection has to end
    needErr,    \* an error has to be reported
    valid,      \* the first response was the expected one
    subscribed, \* the publisher confirmed the subscription
    slot,       \* the two signal index caches
    active,     \* last one received (1 or 2)
    subid,      \* subscriber identification assigned by the publisher on this connection, or <<>>
    base,       \* the two base times
    keys,       \* cipher keys in use: <<>> or <<even, odd>>
    blk,        \* buffer blocks: number of the next one, and the ones waiting for it
    due, bag,
    bytes,      \* bytes of the messages consumed on this connection
    meas,       \* measurements delivered in this run
    known       \* pair <<meas, total reported then>>, or <<>>

mvars == <<opt, ph, fatal, needErr, valid, subscribed, slot, active, subid, base, keys, blk, due, bag, bytes, meas, known>>

NoCache == [recs |-> <<>>, dec |-> NewDecoder, seq |-> 0, lost |-> FALSE]
NoBlocks == [next |-> 0, held |-> <<>>]

MInit(o) ==
    /\ opt = o /\ ph = "none" /\ fatal = FALSE /\ needErr = FALSE /\ valid = FALSE /\ subscribed = FALSE
    /\ slot = <<NoCache, NoCache>> /\ active = 1 /\ subid = <<>> /\ base = <<Zeros(8), Zeros(8)>> /\ keys = <<>>
    /\ blk = NoBlocks /\ due = <<>> /\ bag = {} /\ bytes = 0 /\ meas = 0 /\ known = <<>>

Judged(k) == k \in Watched
Optional == {[e EXCEPT !.opt = TRUE] : e \in bag}

\* A connection is set up: nothing of an earlier one is left, except reports on their way.
Connected ==
    /\ ph' = "up" /\ fatal' = FALSE /\ valid' = (opt.ver < 2) /\ subscribed' = FALSE
    /\ slot' = <<NoCache, NoCache>> /\ active' = 1 /\ base' = <<Zeros(8), Zeros(8)>> /\ keys' = <<>> /\ blk' = NoBlocks
    /\ due' = <<>> /\ bag' = Optional /\ bytes' = 0 /\ known' = <<>> /\ subid' = <<>>
    /\ UNCHANGED <<opt, needErr, meas>>

\* The application or the publisher ends the connection, or it breaks.
Ending == ph' = "ending" /\ bag' = Optional /\ fatal' = FALSE /\ needErr' = FALSE
          /\ UNCHANGED <<opt, valid, subscribed, slot, active, subid, base, keys, blk, due, bytes, meas, known>>

Gone == /\ ph = "ending" /\ ph' = "none" /\ fatal' = FALSE
        /\ UNCHANGED <<opt, needErr, valid, subscribed, slot, active, subid, base, keys, blk, due, bag, bytes, meas, known>>

\* The peer sends bytes that are no message.  What the subscriber makes of them is open, until the
\* next connection; there, nothing is left of this one.
Wild == ph # "none" /\ ph' = "wild" /\ fatal' = FALSE /\ needErr' = FALSE /\ due' = <<>> /\ bag' = {} /\ known' = <<>>
        /\ UNCHANGED <<opt, valid, subscribed, slot, active, subid, base, keys, blk, bytes, meas>>

(* ------- effects ----------------------------------------------------------- *)
Fresh == IF bag = {} THEN 1 ELSE 1 + (CHOOSE n \in {e.n : e \in bag} : \A m \in {e.n : e \in bag} : m <= n)
Entry(k, x, j) == [k |-> k, x |-> x, n |-> Fresh + j, opt |-> ph = "ending"]
Reports(es) == {Entry(es[j].k, es[j].x, j) : j \in {j \in DOMAIN es : Judged(es[j].k)}}
R(k, x) == [k |-> k, x |-> x]

Same == UNCHANGED <<slot, active, subid, base, keys, blk, subscribed, needErr>>
Quiet == UNCHANGED <<due, bag>>
Goes(es) == due' = due \o SelectSeq(es, LAMBDA e : Judged(e.k)) /\ UNCHANGED bag
Tells(es) == bag' = bag \cup Reports(es) /\ UNCHANGED due
On == UNCHANGED <<ph, fatal>>
BreaksBut == ph' = "ending" /\ fatal' = TRUE /\ needErr' = TRUE /\ bag' = Optional /\ due' = due
             /\ UNCHANGED <<active, subid, base, keys, blk, subscribed>>
Breaks == BreaksBut /\ UNCHANGED slot
Problem == needErr' = TRUE /\ Quiet /\ On /\ UNCHANGED <<slot, active, subid, base, keys, blk, subscribed>>

(* ------- signal index caches ----------------------------------------------- *)
Guid(b) == IF opt.swap THEN Swap(b) ELSE b
\* The records of a cache; <<>> is also an empty cache.
ReadCache(b) ==
    FoldLeft(LAMBDA a, k :
        IF ~a.ok \/ Len(b) - a.off < 24 THEN [a EXCEPT !.ok = FALSE]
        ELSE LET n == Cut(b, a.off + 20, 4)
             IN IF ~Fits(n) THEN [a EXCEPT !.ok = FALSE]
                ELSE LET len == Num(n) IN
                     IF Len(b) - a.off - 24 < len + 8 THEN [a EXCEPT !.ok = FALSE]
                     ELSE [ok |-> TRUE, off |-> a.off + 32 + len,
                           recs |-> Append(a.recs, [i |-> Cut(b, a.off, 4), id |-> Guid(Cut(b, a.off + 4, 16)),
                                                    src |-> Cut(b, a.off + 24, len), num |-> Cut(b, a.off + 24 + len, 8)])],
        [ok |-> TRUE, off |-> 24, recs |-> <<>>], [k \in 1 .. Num(Cut(b, 20, 4)) |-> k])

NoID == Zeros(16)
IDOf(c, i) == LET s == {k \in DOMAIN c.recs : c.recs[k].i = i} IN IF s = {} THEN NoID ELSE c.recs[CHOOSE k \in s : \A j \in s : j <= k].id

Cache(m) ==
    LET w == 1 + (IF opt.ver > 1 /\ m.slot > 0 THEN 1 ELSE 0)
        b == m.b
        head == Len(b) >= 24 /\ Fits(Cut(b, 0, 4)) /\ Fits(Cut(b, 20, 4)) /\ Num(Cut(b, 0, 4)) <= Len(b) /\ Num(Cut(b, 20, 4)) <= Len(b)
    IN IF ~m.ok \/ ~head THEN Problem
       ELSE \E r \in {ReadCache(b)} :
            IF ~r.ok THEN Problem
            ELSE
            /\ slot' = [slot EXCEPT ![w] = [recs |-> r.recs, dec |-> NewDecoder, seq |-> 0, lost |-> FALSE]]
            /\ active' = w
            /\ subid' = Guid(Cut(b, 4, 16))
            /\ Tells((IF opt.ver > 1 THEN <<R("cache", <<>>)>> ELSE <<>>) \o <<R("upd", [recs |-> r.recs])>>)
            /\ On /\ UNCHANGED <<base, keys, blk, subscribed, needErr>>

(* ------- measurements ------------------------------------------------------ *)
\* Full state flags of a compact measurement.
B(x, m, v) == IF Bit(x, m) THEN v ELSE 0
FullFlags(x) == <<B(x, 8, 224), B(x, 4, 191) + B(x, 32, 64), B(x, 2, 239) + B(x, 16, 16), B(x, 1, 252) + B(x, 2, 3)>>

TimeLen(x) == IF ~opt.time THEN 0 ELSE IF ~Bit(x, 64) THEN 8 ELSE IF opt.ms THEN 2 ELSE 4
TimeOf(x, t) ==
    IF ~opt.time THEN Zeros(8)
    ELSE IF ~Bit(x, 64) THEN t
    ELSE LET z == base[IF Bit(x, 128) THEN 2 ELSE 1] IN
         IF ~Positive(z) THEN Zeros(8)
         ELSE AddBytes(z, Widen(IF opt.ms THEN Bytes4(Num(t) * 10000) ELSE t))

ReadCompact(c, b, n) ==
    FoldLeft(LAMBDA a, k :
        IF ~a.ok \/ Len(b) - a.off < 9 THEN [a EXCEPT !.ok = FALSE]
        ELSE LET x == b[a.off + 1]
                 tl == TimeLen(x)
             IN IF Len(b) - a.off - 9 < tl THEN [a EXCEPT !.ok = FALSE]
                ELSE [ok |-> TRUE, off |-> a.off + 9 + tl,
                      ms |-> Append(a.ms, [id |-> IDOf(c, Cut(b, a.off + 1, 4)), v |-> Cut(b, a.off + 5, 4),
                                           f |-> FullFlags(x), t |-> TimeOf(x, Cut(b, a.off + 9, tl))])],
        [ok |-> TRUE, off |-> 0, ms |-> <<>>], [k \in 1 .. n |-> k])

\* A value that is not a number is delivered as a quiet one.
Value(v) == IF v[1] \in {127, 255} /\ Bit(v[2], 128) /\ v # <<v[1], 128, 0, 0>> /\ ~Bit(v[2], 64) THEN [v EXCEPT ![2] = @ + 64] ELSE v
Batch(ms) == IF ms = <<>> THEN <<>> ELSE <<[k |-> "data", x |-> [j \in DOMAIN ms |-> [ms[j] EXCEPT !.v = Value(@)]]]>>

\* A compressed packet, counted from 0 to 65535 and from then on from 1.  What a packet stands for
\* that follows one that cannot be, with the same number, is open.
Compressed(w, b, n) ==
    LET c == slot[w]
        seq == b[2] * 256 + b[3]
        c0 == IF seq = 0 THEN [c EXCEPT !.dec = NewDecoder, !.seq = 0, !.lost = FALSE] ELSE c
    IN IF Len(b) < 3 THEN Problem
       ELSE IF b[1] # 85 THEN Breaks
       ELSE IF c0.seq # seq THEN slot' = [slot EXCEPT ![w] = c0] /\ Quiet /\ On /\ UNCHANGED <<active, subid, base, keys, blk, subscribed, needErr>>
       ELSE IF c0.lost THEN ph' = "wild" /\ fatal' = FALSE /\ needErr' = FALSE /\ due' = <<>> /\ bag' = {}
                            /\ UNCHANGED <<slot, active, subid, base, keys, blk, subscribed>>
       ELSE \E r \in {DecodePacket(c0.dec, From(b, 3), n)} :
            IF r.k # "end" THEN BreaksBut /\ slot' = [slot EXCEPT ![w] = [c0 EXCEPT !.lost = TRUE]]
            ELSE
            /\ slot' = [slot EXCEPT ![w] = [c0 EXCEPT !.dec = r.s, !.seq = IF seq = 65535 THEN 1 ELSE seq + 1]]
            /\ Goes(Batch([j \in DOMAIN r.ms |-> [id |-> IDOf(c0, r.ms[j].i), v |-> r.ms[j].v, f |-> r.ms[j].f, t |-> r.ms[j].t]]))
            /\ On /\ UNCHANGED <<active, subid, base, keys, blk, subscribed, needErr>>

\* m.rep compressed packets in sequence, with nothing in them.
Empties(m) ==
    LET c == slot[1]
        n == c.seq + m.rep
    IN /\ slot' = [slot EXCEPT ![1] = [c EXCEPT !.seq = IF n <= 65535 THEN n ELSE ((n - 1) % 65535) + 1]]
       /\ Quiet /\ On /\ UNCHANGED <<active, subid, base, keys, blk, subscribed, needErr>>

\* What is in the packet when it has been deciphered: m.b holds the flags and the clear text, m.key
\* and m.iv what it was enciphered with (empty: not at all), m.len the number of bytes sent after
\* the flags.
Clear(m) ==
    IF keys = <<>> THEN (IF m.key = <<>> THEN "yes" ELSE "?")
    ELSE LET want == keys[IF Bit(m.b[1], 4) THEN 2 ELSE 1]
         IN IF Len(want.k) \notin {16, 24, 32} \/ Len(want.iv) # 16 \/ m.len % 16 # 0 \/ m.len = 0 THEN "no"
            ELSE IF m.key = want.k /\ m.iv = want.iv THEN "yes" ELSE "?"

Data(m) ==
    LET x == m.b[1]
        b == From(m.b, 1)
        w == IF Bit(x, 16) THEN 2 ELSE 1
        n == Num(Cut(b, 0, 4))
    IN IF Len(m.b) < 1 THEN Problem
       ELSE IF ~Bit(x, 2) /\ ~Bit(x, 8) THEN Breaks
       ELSE CASE Clear(m) = "no" -> Breaks
              [] Clear(m) = "?" -> Same /\ Quiet /\ UNCHANGED fatal /\ ph' = "ending"
              [] Clear(m) = "yes" ->
                   IF Len(b) < 4 THEN Problem
                   ELSE IF ~Fits(Cut(b, 0, 4)) \/ n > 8 * Len(b) THEN Breaks
                   ELSE IF Bit(x, 8) THEN Compressed(w, From(b, 4), n)
                   ELSE IF 9 * n > Len(b) - 4 THEN Breaks
                   ELSE IF slot[w].recs = <<>> THEN Same /\ Quiet /\ On
                   ELSE \E r \in {ReadCompact(slot[w], From(b, 4), n)} :
                        IF ~r.ok THEN Breaks ELSE Goes(Batch(r.ms)) /\ Same /\ On

BaseTimes(m) ==
    IF Len(m.b) < 20 THEN Problem
    ELSE base' = <<Cut(m.b, 4, 8), Cut(m.b, 12, 8)>> /\ Quiet /\ On /\ UNCHANGED <<slot, active, subid, keys, blk, subscribed, needErr>>

\* Four counted byte strings after one byte.
ReadKeys(b) ==
    FoldLeft(LAMBDA a, k :
        IF ~a.ok \/ Len(b) - a.off < 4 THEN [a EXCEPT !.ok = FALSE]
        ELSE LET n == Cut(b, a.off, 4) IN
             IF ~Fits(n) THEN [a EXCEPT !.ok = FALSE]
             ELSE IF Len(b) - a.off - 4 < Num(n) THEN [a EXCEPT !.ok = FALSE]
             ELSE [ok |-> TRUE, off |-> a.off + 4 + Num(n), v |-> Append(a.v, Cut(b, a.off + 4, Num(n)))],
        [ok |-> TRUE, off |-> 1, v |-> <<>>], <<1, 2, 3, 4>>)

Keys(m) ==
    LET r == ReadKeys(m.b) IN
    IF ~r.ok THEN Problem
    ELSE keys' = <<[k |-> r.v[1], iv |-> r.v[2]], [k |-> r.v[3], iv |-> r.v[4]]>>
         /\ Quiet /\ On /\ UNCHANGED <<slot, active, subid, base, blk, subscribed, needErr>>

(* ------- buffer blocks ------------------------------------------------------ *)
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
\* The blocks that can be delivered once block next is there.
Run(held, next) == LET n == CHOOSE n \in next .. next + Cardinality(DOMAIN held) :
                                n \notin DOMAIN held /\ \A j \in next .. n - 1 : j \in DOMAIN held
                   IN n
Block(m) ==
    LET b == m.b
        hs == IF opt.ver > 1 THEN 9 ELSE 8
        seq == Num(Cut(b, 0, 4))
        w == IF opt.ver > 1 /\ b[5] > 0 THEN 2 ELSE 1
        block == [id |-> IDOf(slot[w], Cut(b, hs - 4, 4)), p |-> From(b, hs)]
        dup == seq < blk.next \/ seq \in DOMAIN blk.held
        held == [x \in DOMAIN blk.held \cup {seq} |-> IF x = seq THEN block ELSE blk.held[x]]
        upto == Run(held, blk.next)
    IN IF Len(b) < hs THEN Problem
       ELSE IF dup
       THEN /\ bag' = bag \cup (IF Judged("block") THEN {[Entry("blk", Cut(b, 0, 4), 0) EXCEPT !.opt = TRUE]} ELSE {})
            /\ UNCHANGED due /\ Same /\ On
       ELSE /\ blk' = [next |-> upto, held |-> [x \in {x \in DOMAIN held : x >= upto} |-> held[x]]]
            /\ due' = due \o (IF Judged("block") THEN [j \in 1 .. upto - blk.next |-> [k |-> "block", x |-> held[blk.next + j - 1]]] ELSE <<>>)
            /\ bag' = bag \cup Reports(<<R("blk", Cut(b, 0, 4))>>)
            /\ On /\ UNCHANGED <<slot, active, subid, base, keys, subscribed, needErr>>

(* ------- the other messages -------------------------------------------------- *)
StartTime(m) == IF Len(m.b) < 8 THEN Problem ELSE Goes(<<[k |-> "start", x |-> Cut(m.b, 0, 8)]>>) /\ Same /\ On

Succeeded(m) ==
    CASE m.cmd = 1 -> IF m.ok THEN Tells(<<R("meta", m.rows)>>) /\ Same /\ On 
                      ELSE /\ bag' = bag \cup {[e EXCEPT !.opt = TRUE] : e \in Reports(<<R("meta", <<>>)>>)}
                           /\ needErr' = TRUE /\ On /\ UNCHANGED <<due, slot, active, subid, base, keys, blk, subscribed>>
      [] m.cmd \in {2, 3} -> /\ subscribed' = (m.cmd = 2)
                             /\ Tells(IF m.text = "" THEN <<>> ELSE <<R("status", m.text)>>)
                             /\ On /\ UNCHANGED <<slot, active, subid, base, keys, blk, needErr>>
      [] m.cmd \in {6, 4, 5} -> Tells(IF m.text = "" THEN <<>> ELSE <<R("status", m.text)>>) /\ Same /\ On
      [] OTHER -> Problem

\* A failure without text says nothing if the connection itself is refused; others are reported in the subscriber's words.
Failed(m) == IF m.text = "" THEN (IF m.cmd \in {0, 6} THEN Same /\ Quiet /\ On ELSE Problem) ELSE Tells(<<R("error", m.text)>>) /\ Same /\ On

\* The first response has to be the one to the operational modes, or an idle message, and short.
Expected(m) == m.n <= 4 + 6 + 8192 /\ (m.code = 255 \/ (m.cmd = 6 /\ m.code \in {128, 129}))

Message(m) ==
    /\ ph # "none"
    /\ IF m.udp THEN UNCHANGED bytes ELSE bytes' = bytes + m.n
    /\ UNCHANGED <<opt, meas, known>>
    /\ IF ~valid /\ ~Expected(m)
       THEN Breaks /\ UNCHANGED valid
       ELSE /\ valid' = TRUE
            /\ CASE m.code = 128 -> Succeeded(m)
                 [] m.code = 129 -> Failed(m)
                 [] m.code = 130 -> IF "rep" \in DOMAIN m THEN Empties(m) ELSE Data(m)
                 [] m.code = 131 -> Cache(m)
                 [] m.code = 132 -> BaseTimes(m)
                 [] m.code = 133 -> Keys(m)
                 [] m.code = 134 -> StartTime(m)
                 [] m.code = 135 -> Tells(<<R("done", "")>> \o (IF m.text = "" THEN <<>> ELSE <<R("status", m.text)>>)) /\ Same /\ On
                 [] m.code = 136 -> Block(m)
                 [] m.code = 137 -> IF m.ok THEN Tells(<<R("note", m.text), R("hash", m.hash)>>) /\ Same /\ On ELSE Problem
                 [] m.code = 138 -> Tells(<<R("changed", "")>>) /\ Same /\ On
                 [] m.code = 255 -> Same /\ Quiet /\ On
                 [] OTHER -> Problem

(* ------- what is observed ---------------------------------------------------- *)
Others == UNCHANGED <<opt, ph, fatal, valid, subscribed, slot, active, subid, base, keys, blk, bytes, known>>

\* Something is delivered: the oldest thing that is due.
Delivered(k, x, n) ==
    IF ~Judged(k) THEN meas' = meas + n /\ Others /\ UNCHANGED <<due, bag, needErr>>
    ELSE /\ due # <<>>
         /\ due[1].k = k
         /\ due[1].x = x
         /\ due' = Tail(due)
         /\ meas' = meas + n /\ Others /\ UNCHANGED <<bag, needErr>>

\* Several blocks are delivered at once.
DeliveredBlocks(xs) ==
    IF ~Judged("block") THEN UNCHANGED mvars
    ELSE /\ Len(xs) <= Len(due)
         /\ \A j \in DOMAIN xs : due[j] = [k |-> "block", x |-> xs[j]]
         /\ due' = SubSeq(due, Len(xs) + 1, Len(due))
         /\ Others /\ UNCHANGED <<bag, needErr, meas>>

\* Something is reported or sent to the publisher; which of several equal ones does not matter,
\* except that the ones that have to happen go first.
Reported(k, x) ==
    IF ~Judged(k) THEN UNCHANGED mvars
    ELSE LET s == {e \in bag : e.k = k /\ e.x = x}
             must == {e \in s : ~e.opt}
         IN /\ s # {}
            /\ bag' = bag \ {CHOOSE e \in (IF must # {} THEN must ELSE s) : TRUE}
            /\ Others /\ UNCHANGED <<due, needErr, meas>>

\* An error is reported (what it says is open).
ErrorReported == needErr' = FALSE /\ Others /\ UNCHANGED <<due, bag, meas>>

\* A new subscription starts counting again.
Recount == known' = <<>>
           /\ UNCHANGED <<opt, ph, fatal, needErr, valid, subscribed, slot, active, subid, base, keys, blk, due, bag, bytes, meas>>

\* Everything has been handled: q is what the subscriber says about itself.
Rest(q) ==
    /\ due = <<>> \/ ph # "up"
    /\ \A e \in bag : e.opt
    /\ ~fatal /\ ~needErr
    /\ ph = "up" =>
         /\ q.conn
         /\ Judged("valid") => q.valid = valid
         /\ Judged("valid") => q.subscribed = subscribed
         /\ Judged("bytes") => q.bytes = bytes
         /\ Judged("active") /\ subid # <<>> => q.subid = subid
         /\ Judged("data") /\ known # <<>> => q.meas - known[2] = meas - known[1]
    /\ known' = IF ph = "up" THEN <<meas, q.meas>> ELSE <<>>
    /\ UNCHANGED <<opt, ph, fatal, needErr, valid, subscribed, slot, active, subid, base, keys, blk, due, bag, bytes, meas>>

\* Lookups in a cache with these records.
AgreesWith(recs, q) ==
    /\ q.count = Cardinality({recs[k].id : k \in DOMAIN recs})
    /\ {q.ids[k] : k \in DOMAIN q.ids} = {recs[k].id : k \in DOMAIN recs}
    /\ \A k \in DOMAIN q.probes :
         LET p == q.probes[k]
             s == {j \in DOMAIN recs : recs[j].i = p.i}
         IN IF s = {} THEN ~p.has /\ p.id = NoID /\ ~p.rec
            ELSE LET z == recs[CHOOSE j \in s : TRUE]
                 IN p.has /\ p.rec /\ p.id = z.id /\ p.src = z.src /\ p.num = z.num /\ p.back = z.i
ActiveCache(q) == (Judged("active") /\ ph = "up" => AgreesWith(slot[active].recs, q)) /\ UNCHANGED mvars
=============================================================================
