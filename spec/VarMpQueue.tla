----------------------------- MODULE VarMpQueue -----------------------------
(***************************************************************************)
(* Design of the resizable queue of processes: a semaphore counts the free *)
(* places, a put takes one before it stores its item, a get gives it back  *)
(* after it has taken the item. Places to be removed that are not free yet *)
(* are "pending": they are not given back. Resizing takes a lock that the  *)
(* end of a get takes too; putting does not.                               *)
(*                                                                         *)
(* Cancel = FALSE: growing does not take back pending removals (the defect *)
(* that was repaired).                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NT, MaxCap, MaxPut, MaxResize, Cancel
Threads == 1..NT
VARIABLES items, sem, cap, pend, pc, todo, lock, put, got, resized
vars == <<items, sem, cap, pend, pc, todo, lock, put, got, resized>>
Init == /\ items = <<>> /\ cap \in 1..MaxCap /\ sem = cap /\ pend = 0
        /\ pc = [t \in Threads |-> "idle"] /\ todo = 0 /\ lock = 0
        /\ put = 0 /\ got = <<>> /\ resized = 0
Take(t) == /\ pc[t] = "idle" /\ sem > 0 /\ put + Cardinality({u \in Threads : pc[u] = "store"}) < MaxPut
           /\ sem' = sem - 1 /\ pc' = [pc EXCEPT ![t] = "store"]
           /\ UNCHANGED <<items, cap, pend, todo, lock, put, got, resized>>
Store(t) == /\ pc[t] = "store" /\ pc' = [pc EXCEPT ![t] = "idle"]
            /\ items' = Append(items, put + 1) /\ put' = put + 1
            /\ UNCHANGED <<sem, cap, pend, todo, lock, got, resized>>
Pop(t) == /\ pc[t] = "idle" /\ items # <<>>
          /\ got' = Append(got, Head(items)) /\ items' = Tail(items)
          /\ pc' = [pc EXCEPT ![t] = "give"]
          /\ UNCHANGED <<sem, cap, pend, todo, lock, put, resized>>
Give(t) == /\ pc[t] = "give" /\ lock = 0 /\ pc' = [pc EXCEPT ![t] = "idle"]
           /\ IF pend > 0 THEN pend' = pend - 1 /\ UNCHANGED sem ELSE sem' = sem + 1 /\ UNCHANGED pend
           /\ UNCHANGED <<items, cap, todo, lock, put, got, resized>>
Grow(t, c) == /\ pc[t] = "idle" /\ lock = 0 /\ resized < MaxResize /\ c > cap
              /\ resized' = resized + 1 /\ cap' = c
              /\ LET d == c - cap
                     x == IF ~Cancel THEN 0 ELSE IF d < pend THEN d ELSE pend
                 IN pend' = pend - x /\ sem' = sem + d - x
              /\ UNCHANGED <<items, pc, todo, lock, put, got>>
Shrink(t, c) == /\ pc[t] = "idle" /\ lock = 0 /\ resized < MaxResize /\ c < cap
                /\ resized' = resized + 1 /\ cap' = c /\ pend' = pend + (cap - c)
                /\ todo' = cap - c /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "shrink"]
                /\ UNCHANGED <<items, sem, put, got>>
Drop(t) == /\ pc[t] = "shrink"
           /\ IF todo > 0 /\ sem > 0 THEN sem' = sem - 1 /\ pend' = pend - 1 /\ todo' = todo - 1 /\ UNCHANGED <<pc, lock>>
              ELSE pc' = [pc EXCEPT ![t] = "idle"] /\ lock' = 0 /\ todo' = 0 /\ UNCHANGED <<sem, pend>>
           /\ UNCHANGED <<items, cap, put, got, resized>>
Next == \E t \in Threads : Take(t) \/ Store(t) \/ Pop(t) \/ Give(t) \/ Drop(t) \/ \E c \in 1..MaxCap : Grow(t, c) \/ Shrink(t, c)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Fifo == got \o items = [j \in 1..put |-> j]
Stored == Len(items) + Cardinality({t \in Threads : pc[t] \in {"store", "give"}})
\* Places are neither lost nor invented.
Places == sem + Stored = cap + pend
\* Once resizing has ended, nothing is put while the queue is full, and
\* something can be put while it is not.
Capacity == lock = 0 => (sem > 0 <=> Stored < cap)
PendingRight == pend >= 0 /\ (lock = 0 /\ pend > 0 => sem = 0)
=============================================================================
