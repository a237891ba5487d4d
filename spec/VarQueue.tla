------------------------------ MODULE VarQueue ------------------------------
(***************************************************************************)
(* Design of the resizable queue of threads (VariableSizeQueue): a FIFO    *)
(* queue without a bound, a capacity, and one condition on which producers *)
(* wait while the queue is full. Everything that happens under the lock of *)
(* the condition is one step.                                              *)
(*                                                                         *)
(* A get takes the item first and then, in another step, wakes a producer. *)
(* Faults (for the mutation of the design): Tell = FALSE: get wakes nobody;*)
(* All = FALSE: a resize wakes one producer only; Again = FALSE: a woken   *)
(* producer does not check again.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS NT, MaxCap, MaxPut, MaxResize, Tell, All, Again, Recorded, Depth
Threads == 1..NT
VARIABLES items, cap, waiting, pc, put, got, resized, over, hist
vars == <<items, cap, waiting, pc, put, got, resized, over, hist>>
View == <<items, cap, waiting, pc, put, got, resized, over>>

Init == /\ items = <<>> /\ cap \in 1..MaxCap
        /\ waiting = {} /\ pc = [t \in Threads |-> "idle"]
        /\ put = 0 /\ got = <<>> /\ resized = 0 /\ over = FALSE
        /\ hist = IF Recorded THEN <<[op |-> "init", b |-> cap, t |-> 0, w |-> 0]>> ELSE <<>>
Rec(t, o, b, w) == hist' = IF Recorded THEN Append(hist, [op |-> o, t |-> t, b |-> b, w |-> w]) ELSE hist
Small == Recorded => Len(hist) < Depth
Push == /\ items' = Append(items, put + 1) /\ put' = put + 1
        /\ over' = (over \/ Len(items) >= cap)
\* kind 0: at once, 1: waits, 2: with a timeout
PutTry(t, kind) ==
  /\ pc[t] = "idle" /\ put + Cardinality({u \in Threads : pc[u] \in {"wait", "timed", "woken"}}) < MaxPut
  /\ IF Len(items) < cap THEN Push /\ UNCHANGED <<pc, waiting>>
     ELSE /\ UNCHANGED <<items, put, over>>
          /\ IF kind = 0 THEN UNCHANGED <<pc, waiting>>
             ELSE pc' = [pc EXCEPT ![t] = IF kind = 1 THEN "wait" ELSE "timed"] /\ waiting' = waiting \cup {t}
  /\ Rec(t, "put", kind, 0)
  /\ UNCHANGED <<cap, got, resized>>
Wake(t) ==
  /\ pc[t] \in {"wait", "timed"} /\ t \notin waiting
  /\ IF Len(items) < cap \/ ~Again THEN Push /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED waiting
     ELSE waiting' = waiting \cup {t} /\ UNCHANGED <<pc, items, put, over>>
  /\ Rec(t, "run", 0, 0)
  /\ UNCHANGED <<cap, got, resized>>
\* The timeout passes; until the lock is taken again the thread can still be
\* the one that is woken.
TimeUp(t) == /\ pc[t] = "timed" /\ pc' = [pc EXCEPT ![t] = "late"]
             /\ Rec(t, "late", 0, 0)
             /\ UNCHANGED <<items, cap, waiting, put, got, resized, over>>
Late(t) == /\ pc[t] = "late" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ waiting' = waiting \ {t}
           /\ IF Len(items) < cap THEN Push ELSE UNCHANGED <<items, put, over>>
           /\ Rec(t, "run", 0, 0)
           /\ UNCHANGED <<cap, got, resized>>
GetPop(t) == /\ pc[t] = "idle" /\ items # <<>>
             /\ got' = Append(got, Head(items)) /\ items' = Tail(items)
             /\ pc' = [pc EXCEPT ![t] = "tell"]
             /\ Rec(t, "get", 1, 0)
             /\ UNCHANGED <<cap, waiting, put, resized, over>>
GetTell(t) == /\ pc[t] = "tell" /\ pc' = [pc EXCEPT ![t] = "idle"]
              /\ IF waiting = {} \/ ~Tell THEN UNCHANGED waiting /\ Rec(t, "run", 0, 0)
                 ELSE \E u \in waiting : waiting' = waiting \ {u} /\ Rec(t, "run", 0, u)
              /\ UNCHANGED <<items, cap, put, got, resized, over>>
Resize(t, c) == /\ pc[t] = "idle" /\ resized < MaxResize /\ c # cap
                /\ cap' = c /\ resized' = resized + 1
                /\ IF All THEN waiting' = {} ELSE \E u \in waiting \cup {0} : waiting' = waiting \ {u} /\ (waiting # {} => u # 0)
                /\ Rec(t, "cap", c, 0)
                /\ UNCHANGED <<items, pc, put, got, over>>
Inner == \E t \in Threads : Wake(t) \/ Late(t) \/ GetTell(t)
Next == Small /\ (Inner \/ \E t \in Threads : \/ \E kind \in 0..2 : PutTry(t, kind)
                                              \/ TimeUp(t) \/ GetPop(t)
                                              \/ \E c \in 1..MaxCap : Resize(t, c))
Finish == /\ Recorded /\ Len(hist) = Depth
          /\ hist' = Append(hist, [op |-> "fin", t |-> 0, b |-> 0, w |-> 0])
          /\ UNCHANGED View
Spec == Init /\ [][Next \/ Finish]_vars
Fair == Spec /\ WF_vars(Inner)
Emit == (Recorded /\ Len(hist) = Depth + 1) => PrintT("HIST " \o ToJson(hist))
----------------------------------------------------------------------------
Fifo == got \o items = [j \in 1..put |-> j]
Capacity == ~over
\* A waiting producer is not forgotten while there is room.
NotForgotten == (waiting # {} /\ Len(items) < cap) =>
  \E t \in Threads : pc[t] \in {"tell", "late"} \/ (pc[t] \in {"wait", "timed"} /\ t \notin waiting)
Progress == \A t \in Threads : (pc[t] = "wait" /\ Len(items) < cap) ~> (pc[t] = "idle" \/ Len(items) >= cap)
=============================================================================
