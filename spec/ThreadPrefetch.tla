--------------------------- MODULE ThreadPrefetch ---------------------------
(***************************************************************************)
(* Design model of reading an iterator ahead in a background thread (C04). *)
(* The producer reads the parent and puts (element, state) into a bounded  *)
(* buffer; the consumer takes elements, saves, and restores or closes by   *)
(* stopping the producer first.                                            *)
(*                                                                         *)
(*   k     position of the parent           pos   elements handed out      *)
(*   pc    producer: none, check, read, put, putend, dead                  *)
(*   hand  the element the producer holds   buf   the bounded buffer       *)
(*   stop  the flag that asks the producer to stop                         *)
(*   con   consumer: idle, wait, clear1, join, clear2                      *)
(*   todo  what to do once the producer is stopped                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS N, MaxB, NS, Depth, Recorded

VARIABLES B, k, pos, pc, hand, buf, stop, con, todo, snap, closed, got, ended, hist
vars == <<B, k, pos, pc, hand, buf, stop, con, todo, snap, closed, got, ended, hist>>
View == <<B, k, pos, pc, hand, buf, stop, con, todo, snap, closed, got, ended>>
END == -1

Rec(o) == /\ Recorded => Len(hist) < Depth
          /\ hist' = IF Recorded THEN Append(hist, o) ELSE hist
\* Rare operations, when schedules are generated.
Seldom(n) == Recorded => RandomElement(1..n) = 1
NoRec == hist' = hist

Init == /\ B \in 0..MaxB
        /\ k = 0 /\ pos = 0 /\ pc = "none" /\ hand = END /\ buf = <<>> /\ stop = FALSE
        /\ con = "idle" /\ todo = <<"none", 0>> /\ snap = [s \in 1..NS |-> -1]
        /\ closed = FALSE /\ got = <<>> /\ ended = 0 /\ hist = (IF Recorded THEN <<[op |-> "init", b |-> B, t |-> 1]>> ELSE <<>>)

Launch == IF pc = "none" THEN pc' = "check" /\ stop' = FALSE ELSE UNCHANGED <<pc, stop>>
Start == /\ con = "idle" /\ ~closed /\ pc = "none" /\ B > 0
         /\ Launch /\ Rec([op |-> "start"])
         /\ UNCHANGED <<B, k, pos, hand, buf, con, todo, snap, closed, got, ended>>
Ask == /\ con = "idle" /\ ~closed
       /\ IF B > 0 THEN Launch /\ con' = "wait" /\ UNCHANGED <<k, pos, got, ended, hand, buf>>
          ELSE IF buf # <<>> THEN con' = "wait" /\ UNCHANGED <<k, pos, got, ended, hand, buf, pc, stop>>
          ELSE IF k < N THEN k' = k + 1 /\ pos' = pos + 1 /\ got' = Append(got, k) /\ UNCHANGED <<con, ended, hand, buf, pc, stop>>
          ELSE ended' = 1 /\ UNCHANGED <<k, pos, got, con, hand, buf, pc, stop>>
       /\ Rec([op |-> "next"])
       /\ UNCHANGED <<B, todo, snap, closed>>
Take == /\ con = "wait" /\ buf # <<>>
        /\ buf' = Tail(buf)
        /\ IF Head(buf) = END THEN con' = "clear1" /\ todo' = <<"end", 0>> /\ stop' = TRUE /\ UNCHANGED <<pos, got>>
           ELSE con' = "idle" /\ pos' = pos + 1 /\ got' = Append(got, Head(buf)) /\ UNCHANGED <<todo, stop>>
        /\ NoRec
        /\ UNCHANGED <<B, k, pc, hand, snap, closed, ended>>
Save(s) == /\ con = "idle"
           /\ snap' = [snap EXCEPT ![s] = pos]
           /\ Rec([op |-> "get", s |-> s])
           /\ UNCHANGED <<B, k, pos, pc, hand, buf, stop, con, todo, closed, got, ended>>
Stopping(t, o) == /\ todo' = t /\ Rec(o)
                  /\ IF pc = "none" THEN con' = "clear2" /\ UNCHANGED stop ELSE con' = "clear1" /\ stop' = TRUE
                  /\ UNCHANGED <<B, k, pos, pc, hand, buf, snap, closed, got, ended>>
Restore(s) == con = "idle" /\ ~closed /\ snap[s] >= 0 /\ Stopping(<<"set", snap[s]>>, [op |-> "set", s |-> s])
Seek(j) == con = "idle" /\ ~closed /\ Stopping(<<"set", j>>, [op |-> "seek", k |-> j])
Close == con = "idle" /\ ~closed /\ Stopping(<<"close", 0>>, [op |-> "close"])
Drain == /\ con \in {"clear1", "clear2"} /\ buf # <<>>
         /\ buf' = Tail(buf)
         /\ NoRec /\ UNCHANGED <<B, k, pos, pc, hand, stop, con, todo, snap, closed, got, ended>>
Drained == /\ con = "clear1" /\ buf = <<>>
           /\ con' = "join"
           /\ NoRec /\ UNCHANGED <<B, k, pos, pc, hand, buf, stop, todo, snap, closed, got, ended>>
Join == /\ con = "join" /\ pc = "dead"
        /\ pc' = "none" /\ con' = "clear2"
        /\ NoRec /\ UNCHANGED <<B, k, pos, hand, buf, stop, todo, snap, closed, got, ended>>
Act == /\ con = "clear2" /\ buf = <<>>
       /\ con' = "idle" /\ todo' = <<"none", 0>>
       /\ CASE todo[1] = "set" -> k' = todo[2] /\ pos' = todo[2] /\ got' = [j \in 1..todo[2] |-> j - 1] /\ ended' = 0 /\ UNCHANGED closed
            [] todo[1] = "close" -> closed' = TRUE /\ UNCHANGED <<k, pos, got, ended>>
            [] todo[1] = "end" -> ended' = 1 /\ UNCHANGED <<k, pos, got, closed>>
       /\ NoRec /\ UNCHANGED <<B, pc, hand, buf, stop, snap>>

Check == /\ pc = "check" /\ pc' = (IF stop THEN "dead" ELSE "read")
         /\ NoRec /\ UNCHANGED <<B, k, pos, hand, buf, stop, con, todo, snap, closed, got, ended>>
Read == /\ pc = "read"
        /\ IF k < N THEN hand' = k /\ k' = k + 1 /\ pc' = "put" ELSE hand' = END /\ pc' = "putend" /\ UNCHANGED k
        /\ Rec([op |-> "rel"])
        /\ UNCHANGED <<B, pos, buf, stop, con, todo, snap, closed, got, ended>>
Put == /\ pc \in {"put", "putend"} /\ Len(buf) < B
       /\ buf' = Append(buf, hand)
       /\ pc' = IF pc = "put" THEN "check" ELSE "dead"
       /\ NoRec /\ UNCHANGED <<B, k, pos, hand, stop, con, todo, snap, closed, got, ended>>

Producer == Check \/ Read \/ Put
Consumer == Take \/ Drain \/ Drained \/ Join \/ Act
Client == \/ (Seldom(2) /\ Start) \/ Ask \/ (Seldom(16) /\ Close)
          \/ \E s \in 1..NS : Seldom(3) /\ (Save(s) \/ Restore(s))
Next == Producer \/ Consumer \/ Client \/ \E j \in 0..N : Seldom(20) /\ Seek(j)
Finish == /\ Recorded /\ Len(hist) = Depth
          /\ hist' = Append(hist, [op |-> "fin"])
          /\ UNCHANGED View
Spec == Init /\ [][Next \/ Finish]_vars
Fair == Spec /\ WF_vars(Producer) /\ WF_vars(Consumer)
Emit == (Recorded /\ Len(hist) = Depth + 1) => PrintT("HIST " \o ToJson(hist))
----------------------------------------------------------------------------
InOrder == got = [j \in 1..Len(got) |-> j - 1] /\ Len(got) = pos
EndRight == ended = 1 => pos = N
Bounded == Len(buf) <= B /\ (con \in {"idle", "wait"} => k <= pos + B + 1)
\* Nobody touches the parent while the producer may be reading it.
Exclusive == (con = "clear2" /\ buf = <<>>) => pc = "none"
\* What is in the buffer continues where the consumer is.
Consistent == con \in {"idle", "wait"} /\ ~closed =>
  \A j \in DOMAIN buf : buf[j] = END \/ buf[j] = pos + j - 1
NotStuck == con # "idle" => ENABLED (Producer \/ Consumer)
Progress == (con # "idle") ~> (con = "idle")
Gone == closed => pc = "none"
=============================================================================
