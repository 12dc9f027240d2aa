------------------------------ MODULE StreamMC ------------------------------
(* Stream.tla explored: every sequence of messages over a small alphabet (of *)
(* real messages), on one or two connections.  The invariants compare what   *)
(* is delivered with the history of what was sent, symbol by symbol, without *)
(* decoding anything.  The histories are printed to be replayed into the     *)
(* implementation.                                                           *)
EXTENDS Stream, TsscEnc, Json, IOUtils

Topic == IOEnv.TOPIC          \* which alphabet
Depth == atoi(IOEnv.DEPTH)    \* messages in a history
Eager == IOEnv.EAGER = "1"    \* everything is seen before the next message is sent

VARIABLES hist,     \* symbols sent on this connection
          told,     \* deliveries and reports seen on this connection
          count,    \* messages in all
          past,     \* everything done so far, as plan
          tenc      \* the publisher's TSSC encoder: state and next sequence number

mc == <<mvars, hist, told, count, past, tenc>>

AllKinds == {"data", "cache", "upd", "start", "block", "blk", "note", "hash", "meta", "changed", "done", "status", "error", "bytes", "valid", "active"}

(* ------- the alphabet -------------------------------------------------------- *)
ID(n) == [i \in 1 .. 16 |-> n * 16 + i - 1]
U8(n) == Zeros(4) \o Bytes4(n)
Rec(i, n) == Bytes4(i) \o ID(n) \o Bytes4(1) \o <<83>> \o U8(i)
CacheBytes(rs, n) == Bytes4(24 + Len(rs)) \o ID(15) \o Bytes4(n) \o rs

CacheSym == [ A0 |-> [slot |-> 0, of |-> (1 :> 1), b |-> CacheBytes(Rec(1, 1), 1)],
              B0 |-> [slot |-> 0, of |-> (1 :> 2 @@ 2 :> 3), b |-> CacheBytes(Rec(1, 2) \o Rec(2, 3), 2)],
              C1 |-> [slot |-> 1, of |-> (1 :> 3), b |-> CacheBytes(Rec(1, 3), 1)],
              E0 |-> [slot |-> 0, of |-> (7 :> 5), b |-> CacheBytes(Rec(7, 5), 1)] ]
\* flags byte, measurement: compact flags, index, value, time
DataSym == [ D0 |-> [slot |-> 0, i |-> 1, c |-> 0, v |-> <<64, 0, 0, 0>>, t |-> <<8, 218, 1, 2, 3, 4, 5, 6>>],
             D1 |-> [slot |-> 1, i |-> 1, c |-> 1, v |-> <<64, 1, 0, 0>>, t |-> <<200, 218, 1, 2, 3, 4, 5, 7>>],
             D2 |-> [slot |-> 0, i |-> 2, c |-> 64, v |-> <<64, 2, 0, 0>>, t |-> Bytes4(5)],
             D3 |-> [slot |-> 0, i |-> 1, c |-> 192 + 63, v |-> <<64, 3, 0, 0>>, t |-> Bytes4(70000)] ]
BaseSym == [ X |-> <<1000, 250000>>, Y |-> <<40, 50>> ]
KeySym == [ K1 |-> 1, K2 |-> 2 ]
BlockSym == [ b0 |-> 0, b1 |-> 1, b2 |-> 2, b3 |-> 3 ]
Key(n, p) == [k |-> [i \in 1 .. 16 |-> n * 40 + p * 20 + i], iv |-> [i \in 1 .. 16 |-> 200 - n * 40 - p * 20 - i]]
Str(b) == Bytes4(Len(b)) \o b

Alphabet ==
    CASE Topic = "data" -> (DOMAIN CacheSym \ {"E0"}) \cup DOMAIN DataSym \cup DOMAIN BaseSym
      [] Topic = "keys" -> {"A0", "B0", "K1", "K2", "Ve", "Vo"}
      [] Topic = "blocks" -> {"A0", "B0", "b0", "b1", "b2", "b3"}
      [] Topic = "tssc" -> {"A0", "E0", "T", "U", "R", "O"}
      [] Topic = "caches" -> DOMAIN CacheSym \cup {"D0", "D1", "b0"}
      [] Topic = "wild" -> {"A0", "Ve", "b0", "b1", "K1", "note"}
      [] Topic = "msgs" -> {"note", "start", "done", "changed", "meta", "subOK", "subNo", "unsubOK", "noop", "odd"}

M(code, cmd, b) == [code |-> code, cmd |-> cmd, b |-> b, udp |-> FALSE, n |-> 10 + Len(b), key |-> <<>>, iv |-> <<>>, len |-> 0,
                    slot |-> 0, ok |-> TRUE, text |-> "", hash |-> <<>>, rows |-> <<>>]

IsData(s) == s \in DOMAIN DataSym \cup {"Ve", "Vo"}
D(s) == IF s \in DOMAIN DataSym THEN DataSym[s] ELSE DataSym.D0
DataBytes(s) == Bytes4(1) \o <<D(s).c>> \o Bytes4(D(s).i) \o D(s).v \o D(s).t
Pad(b) == b \o Zeros((16 - (Len(b) % 16)) % 16)

LastKey == LET ks == {j \in DOMAIN hist : hist[j] \in DOMAIN KeySym} IN
           IF ks = {} THEN 0 ELSE KeySym[hist[CHOOSE j \in ks : \A k \in ks : k <= j]]

\* One TSSC measurement of symbol s, told apart by its value.
TMeas(s) == [i |-> <<0, IF s = "U" THEN 7 ELSE 1>>, t |-> LAdd(tenc.s.t1, <<0, 0, 0, IF s = "U" THEN 0 ELSE 333>>),
             f |-> <<0, IF s = "U" THEN 3 ELSE 0>>, v |-> <<16384 + count, 5>>]
TForm(s, m) == [i |-> CHOOSE f \in IDForms(s, m) : TRUE, t |-> CHOOSE f \in TimeForms(s, m) : TRUE,
                f |-> CHOOSE f \in FlagForms(s, m) : TRUE, v |-> CHOOSE f \in ValueForms(s, m) : TRUE]
TPacket(s, m) ==      \* encoder state s -> [s, w]
    Let(TForm(s, m), LAMBDA fm :
    Let(Put([s |-> s, w |-> NewWriter], m, fm.i, fm.t, fm.f, fm.v), LAMBDA a : Finished(a.s, a.w)))
Seq2(n) == <<n \div 256, n % 256>>
TBytes(seq, w) == <<10>> \o Bytes4(1) \o <<85>> \o Seq2(seq) \o w.buf

\* The message that symbol s stands for now, and the encoder afterwards.
Make(s) ==
    CASE s \in DOMAIN CacheSym -> [m |-> [M(131, 2, CacheSym[s].b) EXCEPT !.slot = CacheSym[s].slot],
                                    e |-> IF CacheSym[s].slot = 0 THEN [s |-> NewDecoder, seq |-> 0] ELSE tenc]
      [] s \in DOMAIN DataSym -> [m |-> M(130, 2, <<2 + 16 * D(s).slot>> \o DataBytes(s)), e |-> tenc]
      [] s \in {"Ve", "Vo"} -> [m |-> LET k == LastKey
                                          p == IF s = "Ve" THEN 0 ELSE 1
                                          b == Pad(DataBytes(s))
                                      IN IF k = 0 THEN M(130, 2, <<2 + 4 * p>> \o DataBytes(s))
                                         ELSE [M(130, 2, <<2 + 4 * p>> \o b) EXCEPT !.key = Key(k, p).k, !.iv = Key(k, p).iv, !.len = Len(b)],
                                 e |-> tenc]
      [] s \in DOMAIN BaseSym -> [m |-> M(132, 2, Bytes4(0) \o U8(BaseSym[s][1]) \o U8(BaseSym[s][2])), e |-> tenc]
      [] s \in DOMAIN KeySym -> [m |-> M(133, 2, <<0>> \o Str(Key(KeySym[s], 0).k) \o Str(Key(KeySym[s], 0).iv) \o Str(Key(KeySym[s], 1).k) \o Str(Key(KeySym[s], 1).iv)), e |-> tenc]
      [] s \in DOMAIN BlockSym -> [m |-> M(136, 2, Bytes4(BlockSym[s]) \o <<0>> \o Bytes4(1) \o <<100 + BlockSym[s], count>>), e |-> tenc]
      [] s \in {"T", "U"} -> Let(TPacket(tenc.s, TMeas(s)), LAMBDA a : [m |-> M(130, 2, TBytes(tenc.seq, a.w)), e |-> [s |-> a.s, seq |-> tenc.seq + 1]])
      [] s = "R" -> Let(TPacket(NewDecoder, [TMeas(s) EXCEPT !.t = <<0, 0, 9, 9>>]), LAMBDA a : [m |-> M(130, 2, TBytes(0, a.w)), e |-> [s |-> a.s, seq |-> 1]])
      [] s = "O" -> Let(TPacket(NewDecoder, TMeas(s)), LAMBDA a : [m |-> M(130, 2, TBytes(tenc.seq + 3, a.w)), e |-> tenc])
      [] s = "note" -> [m |-> [M(137, 0, <<>>) EXCEPT !.hash = <<1, 2, 3, count>>, !.text = "text-" \o ToString(count) \o "n-end"], e |-> tenc]
      [] s = "start" -> [m |-> M(134, 0, <<8, 218, 0, 0, 0, 0, 0, count>>), e |-> tenc]
      [] s = "done" -> [m |-> M(135, 0, <<>>), e |-> tenc]
      [] s = "changed" -> [m |-> M(138, 0, <<>>), e |-> tenc]
      [] s = "meta" -> [m |-> [M(128, 1, <<>>) EXCEPT !.rows = <<"text-" \o ToString(count) \o "m-end">>], e |-> tenc]
      [] s = "subOK" -> [m |-> [M(128, 2, <<>>) EXCEPT !.text = "text-" \o ToString(count) \o "s-end"], e |-> tenc]
      [] s = "subNo" -> [m |-> [M(129, 2, <<>>) EXCEPT !.text = "text-" \o ToString(count) \o "f-end"], e |-> tenc]
      [] s = "unsubOK" -> [m |-> M(128, 3, <<>>), e |-> tenc]
      [] s = "noop" -> [m |-> M(255, 0, <<>>), e |-> tenc]
      [] s = "odd" -> [m |-> M(141, 0, <<>>), e |-> tenc]

(* ------- behaviour ------------------------------------------------------------ *)
Opts == [ver |-> 2, time |-> TRUE, ms |-> FALSE, swap |-> FALSE]

MCInit == /\ opt = Opts /\ ph = "up" /\ fatal = FALSE /\ needErr = FALSE /\ valid = TRUE /\ subscribed = FALSE
          /\ slot = <<NoCache, NoCache>> /\ active = 1 /\ subid = <<>> /\ base = <<Zeros(8), Zeros(8)>> /\ keys = <<>>
          /\ blk = NoBlocks /\ due = <<>> /\ bag = {} /\ bytes = 0 /\ meas = 0 /\ known = <<>>
          /\ hist = <<>> /\ told = <<>> /\ count = 0 /\ past = <<>> /\ tenc = [s |-> NewDecoder, seq |-> 0]

Plan == PrintT("PLAN " \o ToJson(past'))

Send == /\ count < Depth /\ ph = "up"
        /\ Eager => due = <<>> /\ bag = {} /\ ~needErr
        /\ \E s \in Alphabet : \E x \in {Make(s)} :
             /\ Message(x.m)
             /\ hist' = Append(hist, s) /\ tenc' = x.e /\ count' = count + 1
             /\ past' = Append(past, x.m @@ [sym |-> s])
        /\ UNCHANGED told
        /\ count + 1 = Depth /\ due = <<>> /\ bag = {} /\ (Topic = "wild" => \E j \in DOMAIN past : past[j].sym = "W") => Plan

Deliver == /\ due # <<>>
           /\ IF due[1].k = "block" THEN DeliveredBlocks(<<due[1].x>>) ELSE Delivered(due[1].k, due[1].x, 1)
           /\ told' = Append(told, [k |-> due[1].k, x |-> due[1].x])
           /\ UNCHANGED <<hist, count, past, tenc>>

\* Reports happen in any order; one order is enough here.
Report == /\ bag # {}
          /\ LET e == CHOOSE e \in bag : \A f \in bag : e.n <= f.n IN
             /\ Reported(e.k, e.x)
             /\ told' = Append(told, [k |-> e.k, x |-> e.x])
          /\ UNCHANGED <<hist, count, past, tenc>>

ReportErr == needErr /\ ErrorReported /\ UNCHANGED <<hist, told, count, past, tenc>>

\* The connection ends and the next one is made.
Reconnect == /\ hist # <<>> /\ due = <<>> /\ bag = {} /\ ~needErr /\ count < Depth - 1
             /\ \A j \in DOMAIN past : past[j].sym # "cut"
             /\ ph' = "up" /\ fatal' = FALSE /\ subscribed' = FALSE
             /\ slot' = <<NoCache, NoCache>> /\ active' = 1 /\ base' = <<Zeros(8), Zeros(8)>> /\ keys' = <<>> /\ blk' = NoBlocks
             /\ bytes' = 0 /\ known' = <<>> /\ subid' = <<>>
             /\ UNCHANGED <<opt, needErr, meas, due, bag, valid>>
             /\ hist' = <<>> /\ told' = <<>> /\ count' = count + 1 /\ tenc' = [s |-> NewDecoder, seq |-> 0]
             /\ past' = Append(past, [sym |-> "cut"])

\* The peer sends bytes that are no message, and the connection ends.
Garble == /\ Topic = "wild" /\ ph = "up" /\ hist # <<>> /\ count < Depth - 2
          /\ Wild
          /\ past' = Append(past, [sym |-> "W"]) /\ count' = count + 1
          /\ UNCHANGED <<hist, told, tenc>>

MCNext == Garble \/ Send \/ Deliver \/ Report \/ ReportErr \/ Reconnect

(* ------- the guarantees --------------------------------------------------------- *)
Latest(S) == CHOOSE j \in S : \A k \in S : k <= j
CacheBefore(j, w) == {k \in 1 .. j - 1 : hist[k] \in DOMAIN CacheSym /\ CacheSym[hist[k]].slot = w}
SignalAt(j, w, i) == LET c == CacheBefore(j, w) IN
    IF c = {} THEN NoID ELSE LET of == CacheSym[hist[Latest(c)]].of IN IF i \in DOMAIN of THEN ID(of[i]) ELSE NoID
BaseBefore(j) == {k \in 1 .. j - 1 : hist[k] \in DOMAIN BaseSym}
TimeAt(j) == LET d == D(hist[j]) IN
    IF d.c < 64 THEN d.t
    ELSE IF BaseBefore(j) = {} THEN Zeros(8)
    ELSE U8(BaseSym[hist[Latest(BaseBefore(j))]][IF d.c >= 128 THEN 2 ELSE 1] + Num(d.t))
FlagsAt(j) == CASE D(hist[j]).c % 64 = 0 -> <<0, 0, 0, 0>>
                [] D(hist[j]).c % 64 = 1 -> <<0, 0, 0, 252>>
                [] OTHER -> <<224, 255, 255, 255>>
\* What packet j has to deliver.
Wanted(j) == IF CacheBefore(j, D(hist[j]).slot) = {} THEN <<>>
             ELSE <<<<[id |-> SignalAt(j, D(hist[j]).slot, D(hist[j]).i), v |-> D(hist[j]).v, f |-> FlagsAt(j), t |-> TimeAt(j)]>>>>
Concat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)

Seen(k) == LET all == told \o due IN [j \in DOMAIN SelectSeq(all, LAMBDA e : e.k = k) |-> SelectSeq(all, LAMBDA e : e.k = k)[j].x]
Told(k) == LET all == SelectSeq(told, LAMBDA e : e.k = k) IN [j \in DOMAIN all |-> all[j].x]

DataGuarantee == Topic \in {"data", "keys", "caches", "wild"} /\ ph = "up" =>
    Seen("data") = Concat([j \in DOMAIN hist |-> IF IsData(hist[j]) THEN Wanted(j) ELSE <<>>])

\* In-sequence compressed packets deliver their measurement; the others deliver nothing.
Restarted(j) == hist[j] = "R" \/ hist[j] \in {"A0", "E0"}
TsscGuarantee == Topic = "tssc" =>
    Seen("data") = Concat([j \in DOMAIN hist |->
        IF hist[j] \notin {"T", "U", "R"} THEN <<>>
        ELSE <<<<[id |-> SignalAt(j, 0, IF hist[j] = "U" THEN 7 ELSE 1), f |-> <<0, 0, 0, IF hist[j] = "U" THEN 3 ELSE 0>>,
                  v |-> <<64, (count - Len(hist)) + j - 1, 0, 5>>,
                  t |-> LET rs == {k \in 1 .. j : Restarted(k)}
                            r == IF rs = {} THEN 0 ELSE Latest(rs)
                            ticks == 333 * Cardinality({k \in r + 1 .. j : hist[k] = "T"})
                        IN U8(IF r > 0 /\ hist[r] = "R" THEN 9 * 65536 + 9 + ticks ELSE ticks)]>>>>])

\* Blocks: as far as they are there without a gap, each as it first arrived.
First(n) == CHOOSE j \in DOMAIN hist : hist[j] \in DOMAIN BlockSym /\ BlockSym[hist[j]] = n
                                       /\ \A k \in 1 .. j - 1 : hist[k] \in DOMAIN BlockSym => BlockSym[hist[k]] # n
Here == {BlockSym[hist[j]] : j \in {j \in DOMAIN hist : hist[j] \in DOMAIN BlockSym}}
Whole == CHOOSE n \in 0 .. 4 : n \notin Here /\ \A k \in 0 .. n - 1 : k \in Here
BlockGuarantee == ph = "up" =>
    /\ Seen("block") = [j \in 1 .. Whole |-> [id |-> SignalAt(First(j - 1), 0, 1), p |-> <<99 + j, (count - Len(hist)) + First(j - 1) - 1>>]]
    /\ \A n \in Here : Bytes4(n) \in {e.x : e \in {e \in bag : e.k = "blk"}} \cup {e.x : e \in {told[j] : j \in {j \in DOMAIN told : told[j].k = "blk"}}}

\* Each accepted cache is confirmed and reported once, and the last one is active.
CacheGuarantee == ph = "up" =>
    LET cs == {j \in DOMAIN hist : hist[j] \in DOMAIN CacheSym} IN
    /\ Len(Told("cache")) + Cardinality({e \in bag : e.k = "cache"}) = Cardinality(cs)
    /\ Len(Told("upd")) + Cardinality({e \in bag : e.k = "upd"}) = Cardinality(cs)
    /\ cs # {} => LET c == CacheSym[hist[Latest(cs)]] IN
         \A i \in 0 .. 8 : IDOf(slot[active], Bytes4(i)) = IF i \in DOMAIN c.of THEN ID(c.of[i]) ELSE NoID

\* Messages of the other kinds lead to one effect each.
Times(s) == Cardinality({j \in DOMAIN hist : hist[j] = s})
All(k) == Len(Told(k)) + Cardinality({e \in bag : e.k = k}) + Cardinality({j \in DOMAIN due : due[j].k = k})
MsgGuarantee == Topic = "msgs" =>
    /\ All("note") = Times("note") /\ All("hash") = Times("note")
    /\ All("start") = Times("start") /\ All("done") = Times("done") /\ All("changed") = Times("changed")
    /\ All("meta") = Times("meta") /\ All("status") = Times("subOK") /\ All("error") = Times("subNo")
    /\ LET ss == {j \in DOMAIN hist : hist[j] \in {"subOK", "unsubOK"}} IN subscribed = (ss # {} /\ hist[Latest(ss)] = "subOK")
    /\ needErr => Times("odd") > 0

NeverBroken == ph \in {"up", "wild"} /\ ~fatal
=============================================================================
