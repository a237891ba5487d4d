---------------------------- MODULE ShmTransport ----------------------------
(***************************************************************************)
(* Design model of moving arrays from a worker to the consumer in shared   *)
(* memory (C19). The worker puts an array into a new block and hands the   *)
(* name of the block over through a bounded buffer. The consumer opens it, *)
(* keeps the array for a while and then releases the block, at once or in  *)
(* a background thread. Elements can become stale (the position has been   *)
(* set), making one can fail half way, the consumer can stop at any time,  *)
(* and the source can yield arrays that live in shared memory already and  *)
(* that it keeps (the odd ones; they were received from other workers).    *)
(*                                                                         *)
(*   live    blocks that exist          rel   how often each was released  *)
(*   hand    block the worker holds     buf   blocks in the buffer, ACK    *)
(*   held    blocks of arrays in use    dels  releases in the background   *)
(*   kept    blocks of the source                                          *)
(*                                                                         *)
(* The constants switch rules of the design off: a stale or unsent block   *)
(* is released by whoever drops it (Discard), the buffer is emptied once   *)
(* more after the worker has ended (Late), a block is handed over only by  *)
(* the one who made it (Once), and an unfinished array releases its block  *)
(* (Unfinished).                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, MaxB, MaxBlk, MaxSet, MaxPend, Discard, Late, Once, Unfinished

VARIABLES B, live, rel, made, w, wk, hand, buf, req, ssc, stop, con, held, dels, sets, torn
vars == <<B, live, rel, made, w, wk, hand, buf, req, ssc, stop, con, held, dels, sets, torn>>
ACK == -1
END == -2
Kept == {MaxBlk + k : k \in {j \in 0..(N - 1) : j % 2 = 1}}
Blocks == 1..(MaxBlk + N)

Init == /\ B \in 1..MaxB
        /\ live = Kept /\ rel = [b \in Blocks |-> 0] /\ made = 0
        /\ w = "run" /\ wk = 0 /\ hand = 0 /\ buf = <<>>
        /\ req = 0 /\ ssc = 0 /\ stop = FALSE /\ con = "idle" /\ held = {} /\ dels = <<>> /\ sets = 0 /\ torn = FALSE
Release(s) == live' = live \ s /\ rel' = [b \in Blocks |-> rel[b] + (IF b \in s THEN 1 ELSE 0)]
NoRelease == UNCHANGED <<live, rel>>
Main == <<con, held, dels, sets, torn, ssc, stop>>
Room == Len(buf) < B

----------------------------------------------------------------------------
\* worker
Read == /\ w = "run" /\ ~stop /\ req = 0
        /\ \/ /\ wk = N /\ hand' = END /\ w' = "put" /\ UNCHANGED <<live, rel, made, wk>>
           \/ /\ wk < N /\ wk % 2 = 1 /\ ~Once
              /\ hand' = MaxBlk + wk /\ w' = "put" /\ wk' = wk + 1 /\ UNCHANGED <<live, rel, made>>
           \/ /\ wk < N /\ (wk % 2 = 0 \/ Once) /\ made < MaxBlk
              /\ made' = made + 1 /\ hand' = made + 1 /\ live' = live \cup {made + 1}
              /\ w' = "half" /\ wk' = wk + 1 /\ UNCHANGED rel
        /\ UNCHANGED <<B, buf, req, Main>>
Fill == /\ w = "half" /\ w' = "put" /\ UNCHANGED <<B, live, rel, made, wk, hand, buf, req, Main>>
Fails == /\ w = "half" /\ w' = "put" /\ hand' = END /\ wk' = N
         /\ (IF Unfinished THEN Release({hand}) ELSE NoRelease)
         /\ UNCHANGED <<B, made, buf, req, Main>>
Put == /\ w = "put"
       /\ \/ /\ ~stop /\ Room /\ buf' = Append(buf, hand) /\ NoRelease
          \/ /\ stop /\ UNCHANGED buf /\ (IF Discard /\ hand > 0 THEN Release({hand}) ELSE NoRelease)
       /\ w' = IF hand = END /\ ~stop THEN "done" ELSE "run"
       /\ hand' = 0
       /\ UNCHANGED <<B, made, wk, req, Main>>
Move == /\ w \in {"run", "done"} /\ ~stop /\ req > 0 /\ Room
        /\ buf' = Append(buf, ACK) /\ req' = req - 1 /\ wk' = 0 /\ w' = "run"
        /\ UNCHANGED <<B, live, rel, made, hand, Main>>
Leave == /\ w \in {"run", "done"} /\ stop
         /\ IF buf = <<>> THEN w' = "exit" /\ UNCHANGED <<buf, live, rel>>
            ELSE buf' = Tail(buf) /\ UNCHANGED w /\ (IF Head(buf) > 0 THEN Release({Head(buf)}) ELSE NoRelease)
         /\ UNCHANGED <<B, made, wk, hand, req, Main>>
\* It can notice that it shall stop after it emptied the buffer, and before its last element is flushed.
Worker == Read \/ Fill \/ Put \/ Move \/ Leave

----------------------------------------------------------------------------
\* consumer
Ask == con = "idle" /\ con' = "wait" /\ UNCHANGED <<B, live, rel, made, w, wk, hand, buf, req, ssc, stop, held, dels, sets, torn>>
Take == /\ con = "wait" /\ buf # <<>> /\ buf' = Tail(buf)
        /\ LET x == Head(buf) IN
           CASE x = ACK -> ssc' = ssc - 1 /\ NoRelease /\ UNCHANGED <<con, held, torn, stop>>
             [] x # ACK /\ ssc > 0 -> (IF Discard /\ x > 0 THEN Release({x}) ELSE NoRelease) /\ UNCHANGED <<ssc, con, held, torn, stop>>
             [] x = END /\ ssc = 0 -> con' = "stopping" /\ stop' = TRUE /\ NoRelease /\ UNCHANGED <<ssc, held, torn>>
             [] x > 0 /\ ssc = 0 -> con' = "idle" /\ held' = held \cup {x} /\ torn' = (torn \/ x \notin live) /\ NoRelease /\ UNCHANGED <<ssc, stop>>
        /\ UNCHANGED <<B, made, w, wk, hand, req, dels, sets>>
SetPos == /\ con = "idle" /\ sets < MaxSet /\ sets' = sets + 1
          /\ req' = req + 1 /\ ssc' = ssc + 1
          /\ UNCHANGED <<B, live, rel, made, w, wk, hand, buf, stop, con, held, dels, torn>>
DropAt(b) == /\ b \in held /\ held' = held \ {b}
             /\ (IF Len(dels) < MaxPend THEN dels' = Append(dels, b) /\ NoRelease ELSE Release({b}) /\ UNCHANGED dels)
             /\ UNCHANGED <<B, made, w, wk, hand, buf, req, ssc, stop, con, sets, torn>>
Delete == /\ dels # <<>> /\ Release({Head(dels)}) /\ dels' = Tail(dels)
          /\ UNCHANGED <<B, made, w, wk, hand, buf, req, ssc, stop, con, held, sets, torn>>
Close == /\ con = "idle" /\ con' = "stopping" /\ stop' = TRUE
         /\ UNCHANGED <<B, live, rel, made, w, wk, hand, buf, req, ssc, held, dels, sets, torn>>
Empty == /\ con = "stopping"
         /\ IF buf = <<>> THEN con' = "join" /\ UNCHANGED <<buf, live, rel>>
            ELSE buf' = Tail(buf) /\ UNCHANGED con /\ (IF Head(buf) > 0 THEN Release({Head(buf)}) ELSE NoRelease)
         /\ UNCHANGED <<B, made, w, wk, hand, req, ssc, stop, held, dels, sets, torn>>
\* The worker has ended; what it wrote last may have arrived only now.
Join == /\ con = "join" /\ w = "exit" /\ con' = "closed"
        /\ buf' = <<>>
        /\ (IF Late THEN Release({buf[j] : j \in DOMAIN buf} \cap Blocks) ELSE NoRelease)
        /\ UNCHANGED <<B, made, w, wk, hand, req, ssc, stop, held, dels, sets, torn>>
\* A worker that put its last element just before it was told to stop.
PutLate == /\ w = "put" /\ stop /\ Room /\ hand > 0 /\ buf' = Append(buf, hand) /\ hand' = 0 /\ w' = "exit"
           /\ UNCHANGED <<B, live, rel, made, wk, req, Main>>
Consumer == Take \/ Empty \/ Join
Next == Worker \/ Fails \/ PutLate \/ Consumer \/ Ask \/ SetPos \/ (\E b \in held : DropAt(b)) \/ Delete \/ Close
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Worker) /\ WF_vars(Consumer) /\ WF_vars(Delete)
----------------------------------------------------------------------------
\* Nothing is opened that is gone, and nothing is released twice.
Valid == ~torn /\ held \subseteq live
ReleasedOnce == \A b \in Blocks : rel[b] <= 1
\* The source keeps its arrays.
SourceKeeps == Kept \subseteq live
\* Only what is in use exists after the end.
Clean == con = "closed" => live = Kept \cup held \cup {dels[j] : j \in DOMAIN dels}
\* Never more than what is in use, in the buffer, in the hand and being released.
Bounded == Cardinality(live \ (Kept \cup held)) <= B + 1 + Len(dels)
Ends == (con = "stopping") ~> (con = "closed")
=============================================================================
