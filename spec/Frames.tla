------------------------------- MODULE Frames -------------------------------
(* Commands on the wire.  Every writer (application goroutines, the          *)
(* connection set-up, the thread that answers the publisher) issues commands *)
(* in some order; the publisher reads whole frames.                          *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES queue,    \* writer -> commands issued and not yet arrived, oldest first
          ending    \* the connection is being ended: what is on its way may be lost
fvars == <<queue, ending>>

\* The operational modes that open a connection are sent by the connection set-up; their
\* content is the subject of Request.tla.
Modes == [code |-> "06", n |-> 4, p |-> "any"]
Command(code, n, p) == [code |-> code, n |-> n, p |-> p]

Hex == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexByte(b) == Hex[(b \div 16) + 1] \o Hex[(b % 16) + 1]
Hex32(n) == HexByte(n \div 16777216) \o HexByte((n \div 65536) % 256) \o HexByte((n \div 256) % 256) \o HexByte(n % 256)

FInit == queue = [w \in {"setup", "reader"} |-> <<>>] /\ ending = FALSE

Put(w, c) == queue' = [x \in DOMAIN queue \cup {w} |-> IF x # w THEN queue[x] ELSE IF w \in DOMAIN queue THEN Append(queue[w], c) ELSE <<c>>]

Open == Put("setup", Modes) /\ UNCHANGED ending
Issue(w, c) == Put(w, c) /\ UNCHANGED ending
Ask(c) == Put("reader", c) /\ UNCHANGED ending
EndConnection == ending' = TRUE /\ UNCHANGED queue

Matches(c, code, n, p) == c.code = code /\ c.n = n /\ c.p \in {p, "any"}

\* A frame arrives: header (length of what follows), command code and payload.
Arrive(h, code, n, p) ==
    /\ h = Hex32(n + 1)
    /\ \E w \in DOMAIN queue :
         \E k \in 1 .. (IF ending THEN Len(queue[w]) ELSE 1) :     \* nothing is overtaken
           /\ k <= Len(queue[w])
           /\ Matches(queue[w][k], code, n, p)
           /\ queue' = [queue EXCEPT ![w] = SubSeq(queue[w], k + 1, Len(queue[w]))]
    /\ UNCHANGED ending

Rest == (~ending => \A w \in DOMAIN queue : queue[w] = <<>>) /\ UNCHANGED fvars
=============================================================================
