---------------------------- MODULE PoolPrefetch ----------------------------
(***************************************************************************)
(* Design model of prefetching from a random-access dataset with a thread  *)
(* pool (C03). One consumer; tasks are begun by any free thread of the     *)
(* pool they were given to and end in any order; the number of threads and *)
(* the size of the buffer change at any time.                              *)
(*                                                                         *)
(*   ret   next index to be returned       nb   next index to be submitted *)
(*   buf   submitted tasks, oldest first: [k, st, ex]                      *)
(*   cur   the task the consumer waits for (<<>>: none)                    *)
(*   orph  cancelled tasks that were already running                       *)
(*   T, B  threads and buffer size in force; ex counts the pools           *)
(*   size  threads of every pool                                           *)
(*   hi    highest index that may have been asked for                      *)
(*   hist  the schedule, when it is recorded (generation of schedules)     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
CONSTANTS N, MaxT, MaxB, NS, MaxEx, Depth, Recorded

VARIABLES ret, nb, buf, cur, orph, T, B, ex, size, hi, snap, got, hist
vars == <<ret, nb, buf, cur, orph, T, B, ex, size, hi, snap, got, hist>>
View == <<ret, nb, buf, cur, orph, T, B, ex, size, hi, snap, got>>

Rec(o) == /\ Recorded => Len(hist) < Depth
          /\ hist' = IF Recorded THEN Append(hist, o) ELSE hist
\* Rare operations, when schedules are generated.
Seldom(n) == Recorded => RandomElement(1..n) = 1
Active == B > 0 /\ T > 0
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b

Init == /\ ret = 0 /\ nb = 0 /\ buf = <<>> /\ cur = <<>> /\ orph = {}
        /\ T \in 0..MaxT /\ B \in 0..MaxB
        /\ ex = 1 /\ size = [j \in 1..MaxEx |-> IF j = 1 THEN T ELSE 0]
        /\ hi = -1 /\ snap = [s \in 1..NS |-> -1] /\ got = <<>>
        /\ hist = IF Recorded THEN <<[op |-> "init", b |-> B, t |-> T]>> ELSE <<>>

\* Submits tasks until the buffer is full.
Filled(b, n) == b \o [j \in 1..Max2(0, Min2(B - Len(b), N - n)) |-> [k |-> n + j - 1, st |-> "queued", ex |-> ex]]
Task(k, st) == [k |-> k, st |-> st, ex |-> 0]

Next0 ==  \* the consumer asks for the next element
  /\ cur = <<>> /\ ret < N
  /\ IF Active THEN
       LET b == IF buf = <<>> THEN Filled(buf, nb) ELSE buf
           n1 == nb + Len(b) - Len(buf)
           r == Filled(Tail(b), n1)
       IN /\ cur' = <<Head(b)>>
          /\ buf' = r
          /\ nb' = n1 + Len(r) - (Len(b) - 1)
          /\ hi' = Max2(hi, ret + B)
     ELSE IF buf # <<>> THEN cur' = <<Head(buf)>> /\ buf' = Tail(buf) /\ UNCHANGED <<nb, hi>>
     ELSE cur' = <<Task(ret, "running")>> /\ nb' = nb + 1 /\ hi' = Max2(hi, ret) /\ UNCHANGED buf
  /\ Rec([op |-> "next"])
  /\ UNCHANGED <<ret, orph, T, B, ex, size, snap, got>>

Running == {j \in DOMAIN buf : buf[j].st = "running"}
Busy(e) == Cardinality({j \in Running : buf[j].ex = e})
           + (IF cur # <<>> /\ cur[1].st = "running" /\ cur[1].ex = e THEN 1 ELSE 0)
           + Cardinality({o \in orph : o.ex = e})
BeginCur == /\ cur # <<>> /\ cur[1].st = "queued" /\ Busy(cur[1].ex) < size[cur[1].ex]
            /\ cur' = <<[cur[1] EXCEPT !.st = "running"]>>
            /\ Rec([op |-> "begin"])
            /\ UNCHANGED <<ret, nb, buf, orph, T, B, ex, size, hi, snap, got>>
\* a pool begins its tasks in the order of submission
Begin(j) == /\ buf[j].st = "queued" /\ Busy(buf[j].ex) < size[buf[j].ex]
            /\ ~\E i \in 1..(j - 1) : buf[i].st = "queued" /\ buf[i].ex = buf[j].ex
            /\ ~(cur # <<>> /\ cur[1].st = "queued" /\ cur[1].ex = buf[j].ex)
            /\ buf' = [buf EXCEPT ![j].st = "running"]
            /\ Rec([op |-> "begin"])
            /\ UNCHANGED <<ret, nb, cur, orph, T, B, ex, size, hi, snap, got>>
End(j) == /\ buf[j].st = "running"
          /\ buf' = [buf EXCEPT ![j].st = "done"]
          /\ Rec([op |-> "end", k |-> buf[j].k])
          /\ UNCHANGED <<ret, nb, cur, orph, T, B, ex, size, hi, snap, got>>
EndCur == /\ cur # <<>> /\ cur[1].st = "running"
          /\ cur' = <<[cur[1] EXCEPT !.st = "done"]>>
          /\ Rec([op |-> "end", k |-> cur[1].k])
          /\ UNCHANGED <<ret, nb, buf, orph, T, B, ex, size, hi, snap, got>>
EndOrphan(o) == /\ orph' = orph \ {o}
                /\ Rec([op |-> "end", k |-> o.k])
                /\ UNCHANGED <<ret, nb, buf, cur, T, B, ex, size, hi, snap, got>>
Return == /\ cur # <<>> /\ cur[1].st = "done"
          /\ got' = Append(got, cur[1].k)
          /\ cur' = <<>> /\ ret' = ret + 1
          /\ Rec([op |-> "return"])
          /\ UNCHANGED <<nb, buf, orph, T, B, ex, size, hi, snap>>
Save(s) == /\ cur = <<>>
           /\ snap' = [snap EXCEPT ![s] = ret]
           /\ Rec([op |-> "get", s |-> s])
           /\ UNCHANGED <<ret, nb, buf, cur, orph, T, B, ex, size, hi, got>>
Restore(s) == /\ cur = <<>> /\ snap[s] >= 0
              /\ ret' = snap[s] /\ nb' = snap[s] /\ buf' = <<>>
              /\ orph' = orph \cup {buf[j] : j \in Running}
              /\ hi' = snap[s] - 1
              /\ got' = [j \in 1..snap[s] |-> j - 1]
              /\ Rec([op |-> "set", s |-> s])
              /\ UNCHANGED <<cur, T, B, ex, size, snap>>
Start == /\ cur = <<>> /\ Active
         /\ LET b == Filled(buf, nb) IN buf' = b /\ nb' = nb + Len(b) - Len(buf)
         /\ hi' = Max2(hi, ret - 1 + B)
         /\ Rec([op |-> "start"])
         /\ UNCHANGED <<ret, cur, orph, T, B, ex, size, snap, got>>
Resize(b) == /\ b # B /\ (ex < MaxEx \/ b > 0)
             /\ B' = b
             /\ (IF B = 0 /\ b > 0 /\ T > 0 /\ ex < MaxEx THEN ex' = ex + 1 /\ size' = [size EXCEPT ![ex + 1] = T] ELSE UNCHANGED <<ex, size>>)
             /\ Rec([op |-> "setB", b |-> b])
             /\ UNCHANGED <<ret, nb, buf, cur, orph, T, hi, snap, got>>
Threads(t) == /\ t # T /\ ex < MaxEx
              /\ T' = t
              /\ ex' = ex + 1 /\ size' = [size EXCEPT ![ex + 1] = t]
              /\ Rec([op |-> "setT", t |-> t])
              /\ UNCHANGED <<ret, nb, buf, cur, orph, B, hi, snap, got>>

Client == \/ Next0 \/ (Seldom(2) /\ Start)
          \/ \E s \in 1..NS : Seldom(3) /\ (Save(s) \/ Restore(s))
          \/ \E b \in 0..MaxB : Seldom(20) /\ Resize(b)
          \/ \E t \in 0..MaxT : Seldom(16) /\ Threads(t)
Work == \/ BeginCur \/ EndCur \/ Return
        \/ \E j \in DOMAIN buf : Begin(j) \/ End(j)
        \/ \E o \in orph : EndOrphan(o)
Next == Client \/ Work
Finish == /\ Recorded /\ Len(hist) = Depth
          /\ hist' = Append(hist, [op |-> "fin"])
          /\ UNCHANGED View
Spec == Init /\ [][Next \/ Finish]_vars
\* Threads keep working and finished elements are returned.
Fair == Spec /\ WF_vars(Work)

Emit == (Recorded /\ Len(hist) = Depth + 1) => PrintT("HIST " \o ToJson(hist))
----------------------------------------------------------------------------
InOrder == got = [j \in 1..Len(got) |-> j - 1] /\ Len(got) = ret
\* The buffer continues exactly where the consumer is.
Contiguous == /\ \A j \in DOMAIN buf : buf[j].k = ret + (IF cur # <<>> THEN 1 ELSE 0) + j - 1
              /\ nb = ret + (IF cur # <<>> THEN 1 ELSE 0) + Len(buf)
              /\ cur # <<>> => cur[1].k = ret
Bounded == \A j \in DOMAIN buf : buf[j].k <= hi
NotStuck == cur # <<>> => ENABLED Work
Progress == (cur # <<>>) ~> (cur = <<>>)
=============================================================================
