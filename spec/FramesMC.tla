------------------------------ MODULE FramesMC ------------------------------
(* The writing side of Frames at the level of bytes: each command is put     *)
(* into a shared buffer and written from it while a lock is held.  Checks    *)
(* that the publisher, cutting the byte stream by the length headers, reads  *)
(* frames that Frames allows (Refines), for every interleaving.              *)
EXTENDS Frames
CONSTANTS Writers, PerWriter

Name(w) == <<"w1", "w2", "w3">>[w]

VARIABLES pc, left, lock, buf, stream, read, mangled
mcvars == <<fvars, pc, left, lock, buf, stream, read>>




MCInit == /\ FInit /\ pc = [w \in Writers |-> "idle"] /\ left = [w \in Writers |-> PerWriter]
          /\ lock = 0 /\ buf = <<>> /\ stream = <<>> /\ read = 0 /\ mangled = FALSE

\* payload of w's k-th command: w bytes, each w*16+k
Bytes(w, k) == <<0, 0, 0, w + 1, 208 + w>> \o [i \in 1 .. w |-> 16 * w + k]

Begin(w) == /\ pc[w] = "idle" /\ left[w] > 0
            /\ Issue(Name(w), Bytes(w, left[w]))
            /\ pc' = [pc EXCEPT ![w] = "want"] /\ UNCHANGED <<left, lock, buf, stream, read>>
Acquire(w) == /\ pc[w] = "want" /\ lock = 0 /\ lock' = w /\ pc' = [pc EXCEPT ![w] = "fill"]
              /\ UNCHANGED <<fvars, left, buf, stream, read>>
Fill(w) == /\ pc[w] = "fill" /\ buf' = Bytes(w, left[w]) /\ pc' = [pc EXCEPT ![w] = "write"]
           /\ UNCHANGED <<fvars, left, lock, stream, read>>
Write(w) == /\ pc[w] = "write" /\ stream' = stream \o buf /\ pc' = [pc EXCEPT ![w] = "release"]
            /\ UNCHANGED <<fvars, left, lock, buf, read>>
Release(w) == /\ pc[w] = "release" /\ lock' = 0 /\ pc' = [pc EXCEPT ![w] = "idle"]
              /\ left' = [left EXCEPT ![w] = @ - 1] /\ UNCHANGED <<fvars, buf, stream, read>>

\* The publisher reads a frame as soon as it is complete.
Ready == read + 4 <= Len(stream) /\ read + 4 + stream[read + 4] <= Len(stream)
Read == /\ Ready
        /\ LET f == SubSeq(stream, read + 1, read + 4 + stream[read + 4]) IN
           /\ read' = read + Len(f)
           /\ mangled' = (mangled \/ ~\E w \in DOMAIN queue : queue[w] # <<>> /\ Head(queue[w]) = f)
           /\ IF \E w \in DOMAIN queue : queue[w] # <<>> /\ Head(queue[w]) = f
              THEN queue' = [w \in DOMAIN queue |-> IF queue[w] # <<>> /\ Head(queue[w]) = f THEN Tail(queue[w]) ELSE queue[w]]
              ELSE UNCHANGED queue
        /\ UNCHANGED <<ending, pc, left, lock, buf, stream>>

MCNext == Read \/ (UNCHANGED mangled /\ \E w \in Writers : Begin(w) \/ Acquire(w) \/ Fill(w) \/ Write(w) \/ Release(w))
NotMangled == ~mangled
AllArrive == ((\A w \in Writers : left[w] = 0 /\ pc[w] = "idle") /\ ~Ready) => (read = Len(stream) /\ \A w \in DOMAIN queue : queue[w] = <<>>)
=============================================================================
