---------------------------- MODULE ProcPrefetch ----------------------------
(***************************************************************************)
(* Design model of reading an iterator ahead in a worker process (C05).    *)
(* The worker reads the parent and puts elements into a bounded buffer.    *)
(* The consumer takes them, and restores by putting the state into a queue *)
(* (written by a feeder thread, hence later) and counting requests; the    *)
(* worker acknowledges every request it takes, elements before the last    *)
(* acknowledgement are stale. The worker can die at any step, its parent   *)
(* can raise, and applying a state can fail.                               *)
(*                                                                         *)
(*   pos    elements handed out      got    what was handed out            *)
(*   ssc    acknowledgements the consumer still has to skip                *)
(*   con    consumer: idle, wait, stop (worker told to stop), join         *)
(*   buf    buffer: elements, ACK, END, ERR, FAIL                          *)
(*   fly,sq requests that are not flushed / are flushed; req: their count  *)
(*   w      worker: none, loop, take, ack, apply, read, put, fail, exit    *)
(*          (asked to), dead (on its own); k: its position; hand: its item *)
(*   fault  whether anything went wrong since the last set                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS N, MaxB, NS, MaxFault, MaxSet, FreshQueues, Depth, Recorded

VARIABLES B, pos, got, ssc, con, todo, exh, buf, fly, sq, req, stop, w, k, hand, wexh, new, snap, faults, fault, sets, closed, hist
vars == <<B, pos, got, ssc, con, todo, exh, buf, fly, sq, req, stop, w, k, hand, wexh, new, snap, faults, fault, sets, closed, hist>>
View == <<B, pos, got, ssc, con, todo, exh, buf, fly, sq, req, stop, w, k, hand, wexh, new, snap, faults, fault, sets, closed>>
ACK == -1
END == -2
ERR == -3
FAIL == -4
CRASH == -5
CLOSE == -6

Rec(o) == /\ Recorded => Len(hist) < Depth
          /\ hist' = IF Recorded THEN Append(hist, o) ELSE hist
\* Rare operations, when schedules are generated.
Seldom(n) == Recorded => RandomElement(1..n) = 1
NoRec == hist' = hist
Main == <<pos, got, ssc, con, todo, exh, snap, sets, closed>>
Work == <<w, k, hand, wexh, new>>
Link == <<buf, fly, sq, req, stop>>
Flt == <<faults, fault>>

Init == /\ B \in 1..MaxB
        /\ pos = 0 /\ got = <<>> /\ ssc = 0 /\ con = "idle" /\ todo = 0 /\ exh = FALSE
        /\ buf = <<>> /\ fly = <<>> /\ sq = <<>> /\ req = 0 /\ stop = FALSE
        /\ w = "none" /\ k = 0 /\ hand = 0 /\ wexh = FALSE /\ new = 0
        /\ snap = [s \in 1..NS |-> 0] /\ faults = 0 /\ fault = FALSE /\ sets = 0 /\ closed = FALSE /\ hist = (IF Recorded THEN <<[op |-> "init", b |-> B, t |-> 1]>> ELSE <<>>)

----------------------------------------------------------------------------
\* consumer
Launch == IF w = "none" THEN w' = "loop" /\ k' = 0 /\ wexh' = FALSE /\ stop' = FALSE /\ UNCHANGED <<hand, new>>
          ELSE UNCHANGED <<Work, stop>>
Start == /\ con = "idle" /\ ~closed /\ w = "none"
         /\ Launch /\ Rec([op |-> "start"])
         /\ UNCHANGED <<B, Main, Flt, buf, fly, sq, req>>
Ask == /\ con = "idle" /\ ~closed
       /\ IF exh THEN UNCHANGED <<con, Work, stop>> ELSE con' = "wait" /\ Launch
       /\ Rec([op |-> "next"])
       /\ UNCHANGED <<B, pos, got, ssc, todo, exh, snap, sets, closed, Flt, buf, fly, sq, req>>
Finished(t) == con' = "stop" /\ todo' = t /\ stop' = TRUE
Take == /\ con = "wait" /\ buf # <<>>
        /\ buf' = Tail(buf)
        /\ LET x == Head(buf) IN
             CASE x = ACK -> ssc' = ssc - 1 /\ UNCHANGED <<pos, got, con, todo, stop>>
               [] x # ACK /\ ssc # 0 /\ x # FAIL -> UNCHANGED <<pos, got, ssc, con, todo, stop>>
               [] x \in {END, ERR, FAIL} /\ (ssc = 0 \/ x = FAIL) -> Finished(x) /\ UNCHANGED <<pos, got, ssc>>
               [] x >= 0 /\ ssc = 0 -> pos' = pos + 1 /\ got' = Append(got, x) /\ con' = "idle" /\ UNCHANGED <<ssc, todo, stop>>
        /\ NoRec
        /\ UNCHANGED <<B, exh, snap, sets, closed, Work, fly, sq, req, Flt>>
\* The worker is gone and there is nothing left that it produced.
Notice == /\ con = "wait" /\ buf = <<>> /\ w \in {"exit", "dead"} /\ fly = <<>>
          /\ Finished(CRASH)
          /\ NoRec
          /\ UNCHANGED <<B, pos, got, ssc, exh, snap, sets, closed, Work, buf, fly, sq, req, Flt>>
Drain == /\ con = "stop" /\ buf # <<>>
         /\ buf' = Tail(buf)
         /\ NoRec /\ UNCHANGED <<B, Main, Work, fly, sq, req, stop, Flt>>
ClearQ == /\ con = "stop" /\ buf = <<>> /\ w # "take"
          /\ con' = "join" /\ sq' = <<>> /\ req' = req - Len(sq) /\ ssc' = ssc - Len(sq)
          /\ NoRec /\ UNCHANGED <<B, pos, got, todo, exh, snap, sets, closed, Work, buf, fly, stop, Flt>>
Join == /\ con = "join" /\ w \in {"exit", "dead"}
        /\ w' = "none" /\ buf' = <<>> /\ ssc' = 0 /\ con' = "idle"
        /\ (IF FreshQueues THEN fly' = <<>> /\ sq' = <<>> /\ req' = 0 ELSE UNCHANGED <<fly, sq, req>>)
        /\ exh' = (todo # CLOSE) /\ closed' = (todo = CLOSE) /\ todo' = 0
        /\ NoRec /\ UNCHANGED <<B, pos, got, snap, sets, k, hand, wexh, new, stop, Flt>>
Save(s) == /\ con = "idle" /\ ~closed
           /\ snap' = [snap EXCEPT ![s] = pos]
           /\ Rec([op |-> "get", s |-> s])
           /\ UNCHANGED <<B, pos, got, ssc, con, todo, exh, sets, closed, Work, Link, Flt>>
\* the worker holds the lock of the count while it takes a request
SetTo(j, o) == /\ con = "idle" /\ ~closed /\ sets < MaxSet /\ w # "take"
               /\ sets' = sets + 1
               /\ sq' = <<>> /\ fly' = Append(fly, j)
               /\ req' = req - Len(sq) + 1 /\ ssc' = ssc - Len(sq) + 1
               /\ pos' = j /\ got' = [i \in 1..j |-> i - 1] /\ exh' = FALSE
               /\ fault' = (w # "none" /\ fault)
               /\ Rec(o)
               /\ UNCHANGED <<B, con, todo, snap, closed, Work, buf, stop, faults>>
Restore(s) == SetTo(snap[s], [op |-> "set", s |-> s])
Seek(j) == SetTo(j, [op |-> "seek", k |-> j])
Close == /\ con = "idle" /\ ~closed
         /\ IF w = "none" THEN closed' = TRUE /\ UNCHANGED <<con, todo, stop>> ELSE Finished(CLOSE) /\ UNCHANGED closed
         /\ Rec([op |-> "close"])
         /\ UNCHANGED <<B, pos, got, ssc, exh, snap, sets, Work, buf, fly, sq, req, Flt>>
Flush == /\ fly # <<>> /\ sq' = Append(sq, Head(fly)) /\ fly' = Tail(fly)
         /\ NoRec /\ UNCHANGED <<B, Main, Work, buf, req, stop, Flt>>

----------------------------------------------------------------------------
\* worker
Room == Len(buf) < B
Loop == /\ w = "loop"
        /\ CASE stop -> w' = "exit" /\ UNCHANGED req
             [] ~stop /\ req > 0 -> w' = "take" /\ req' = req - 1
             [] ~stop /\ req = 0 /\ ~wexh -> w' = "read" /\ UNCHANGED req
             [] ~stop /\ req = 0 /\ wexh -> UNCHANGED <<w, req>>
        /\ NoRec /\ UNCHANGED <<B, Main, k, hand, wexh, new, buf, fly, sq, stop, Flt>>
TakeReq == /\ w = "take" /\ sq # <<>>
           /\ new' = Head(sq) /\ sq' = Tail(sq) /\ wexh' = FALSE /\ w' = "ack"
           /\ NoRec /\ UNCHANGED <<B, Main, k, hand, buf, fly, req, stop, Flt>>
Ack == /\ w = "ack"
       /\ IF stop THEN w' = "loop" /\ UNCHANGED buf ELSE Room /\ buf' = Append(buf, ACK) /\ w' = "apply"
       /\ NoRec /\ UNCHANGED <<B, Main, k, hand, wexh, new, fly, sq, req, stop, Flt>>
Apply == /\ w = "apply" /\ k' = new
         /\ w' = IF wexh THEN "loop" ELSE "read"
         /\ NoRec /\ UNCHANGED <<B, Main, hand, wexh, new, Link, Flt>>
ApplyFails == /\ w = "apply" /\ faults < MaxFault
              /\ w' = "fail" /\ faults' = faults + 1 /\ fault' = TRUE
              /\ buf' = <<>> /\ sq' = <<>>       \* clears both queues
              /\ NoRec /\ UNCHANGED <<B, Main, k, hand, wexh, new, fly, req, stop>>
Failing == /\ w = "fail"
           /\ IF stop THEN UNCHANGED buf ELSE Room /\ buf' = Append(buf, FAIL)
           /\ w' = "exit"
           /\ NoRec /\ UNCHANGED <<B, Main, k, hand, wexh, new, fly, sq, req, stop, Flt>>
Read == /\ w = "read"
        /\ IF k < N THEN hand' = k /\ k' = k + 1 ELSE hand' = END /\ UNCHANGED k
        /\ w' = "put"
        /\ Rec([op |-> "rel"])
        /\ UNCHANGED <<B, Main, wexh, new, Link, Flt>>
Raise == /\ w = "read" /\ faults < MaxFault
         /\ hand' = ERR /\ w' = "put" /\ faults' = faults + 1 /\ fault' = TRUE
         /\ Rec([op |-> "raise"])
         /\ UNCHANGED <<B, Main, k, wexh, new, Link>>
Put == /\ w = "put"
       /\ IF stop THEN UNCHANGED buf ELSE Room /\ buf' = Append(buf, hand)
       /\ wexh' = (wexh \/ hand < 0)
       /\ w' = "loop"
       /\ NoRec /\ UNCHANGED <<B, Main, k, hand, new, fly, sq, req, stop, Flt>>
Die == /\ w \in {"loop", "ack", "apply", "read", "put", "fail"} /\ faults < MaxFault
       /\ w' = "dead" /\ faults' = faults + 1 /\ fault' = TRUE
       /\ Rec([op |-> "die"])
       /\ UNCHANGED <<B, Main, k, hand, wexh, new, Link>>

Worker == Loop \/ TakeReq \/ Ack \/ Apply \/ Failing \/ Read \/ Put
Consumer == Take \/ Notice \/ Drain \/ ClearQ \/ Join
Client == \/ Start \/ Ask \/ (Seldom(16) /\ Close)
          \/ \E s \in 1..NS : Seldom(3) /\ (Save(s) \/ Restore(s))
          \/ \E j \in 0..N : Seldom(20) /\ Seek(j)
Fail == Seldom(6) /\ (Die \/ Raise \/ ApplyFails)
Next == Worker \/ Consumer \/ Client \/ Flush \/ Fail
Finish == /\ Recorded /\ Len(hist) = Depth
          /\ hist' = Append(hist, [op |-> "fin"])
          /\ UNCHANGED View
Spec == Init /\ [][Next \/ Finish]_vars
Fair == Spec /\ WF_vars(Worker) /\ WF_vars(Consumer) /\ WF_vars(Flush)
Emit == (Recorded /\ Len(hist) = Depth + 1) => PrintT("HIST " \o ToJson(hist))
----------------------------------------------------------------------------
InOrder == got = [j \in 1..Len(got) |-> j - 1] /\ Len(got) = pos
Bounded == Len(buf) <= B
\* An end is the end, and an error has a cause.
EndRight == (todo = END => pos = N) /\ (todo \in {ERR, FAIL, CRASH} => fault)
Counts == con \in {"idle", "wait"} /\ w # "none" =>
            ssc >= 0 /\ (w \notin {"dead", "exit", "fail"} =>
            ssc = req + Cardinality({j \in DOMAIN buf : buf[j] = ACK}) + (IF w \in {"take", "ack"} THEN 1 ELSE 0))
Gone == closed => w = "none"
Progress == (con # "idle") ~> (con = "idle")
=============================================================================
