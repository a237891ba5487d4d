----------------------------- MODULE Interleave -----------------------------
(***************************************************************************)
(* Design model of interleaving (C06), as a machine with slots:            *)
(*                                                                         *)
(*   lens   lengths of the inputs            C      number of slots        *)
(*   slot   the open input of a slot or 0    ex     the slot's input ended *)
(*   idx    the last input given to a slot   cur    slot to visit next     *)
(*   nxt    next input to give to a slot     rd     positions of inputs    *)
(*   ready  inputs opened ahead by a background thread, pre the next one   *)
(*   busy   a call of next is looking for an element                       *)
(*                                                                         *)
(* A save also gives inputs to slots that never had one; a restore goes    *)
(* into the same or a fresh iterator. Whatever the background thread does  *)
(* and whenever states are saved and restored, the elements handed out are *)
(* those of Interleaved (Pipe.tla).                                        *)
(***************************************************************************)
EXTENDS Pipe
CONSTANTS MaxN, MaxLen, MaxC, Ahead, Fill

VARIABLES lens, C, slot, ex, idx, cur, nxt, rd, ready, pre, busy, started, snap, got, ended
vars == <<lens, C, slot, ex, idx, cur, nxt, rd, ready, pre, busy, started, snap, got, ended>>

n == Len(lens)
Slots == 1..C
Seqs == [d \in 1..n |-> [j \in 1..lens[d] |-> <<d, j>>]]
Ref == Interleaved(Seqs, C)

Fresh == /\ slot = [s \in Slots |-> 0] /\ ex = [s \in Slots |-> FALSE] /\ idx = [s \in Slots |-> s]
         /\ cur = 1 /\ nxt = 1 /\ ready = <<>> /\ pre = 1 /\ started = FALSE
Init == /\ \E k \in 0..MaxN : lens \in [1..k -> 0..MaxLen]
        /\ \E c \in 1..MaxC : C = Min2(c, Len(lens))
        /\ rd = [d \in 1..Len(lens) |-> 0]
        /\ Fresh
        /\ busy = FALSE /\ got = <<>> /\ ended = FALSE /\ snap = [have |-> FALSE]

Ask == /\ ~busy /\ ~ended
       /\ IF C = 0 THEN ended' = TRUE /\ UNCHANGED <<busy, started>>
          ELSE busy' = TRUE /\ started' = TRUE /\ UNCHANGED ended
       /\ UNCHANGED <<lens, C, slot, ex, idx, cur, nxt, rd, ready, pre, snap, got>>
Step(c) == (c % C) + 1
\* The visited slot has an input.
Visit == /\ busy /\ slot[cur] # 0
         /\ cur' = Step(cur)
         /\ IF rd[slot[cur]] < lens[slot[cur]]
            THEN /\ rd' = [rd EXCEPT ![slot[cur]] = @ + 1]
                 /\ got' = Append(got, <<slot[cur], rd[slot[cur]] + 1>>)
                 /\ busy' = FALSE
                 /\ UNCHANGED <<slot, ex>>
            ELSE /\ slot' = [slot EXCEPT ![cur] = 0]
                 /\ ex' = [ex EXCEPT ![cur] = TRUE]
                 /\ UNCHANGED <<rd, got, busy>>
         /\ UNCHANGED <<lens, C, idx, nxt, ready, pre, started, snap, ended>>
Open == /\ busy /\ slot[cur] = 0 /\ nxt <= n /\ ready # <<>>
        /\ slot' = [slot EXCEPT ![cur] = Head(ready)]
        /\ ready' = Tail(ready)
        /\ ex' = [ex EXCEPT ![cur] = FALSE]
        /\ idx' = [idx EXCEPT ![cur] = nxt]
        /\ nxt' = nxt + 1
        /\ UNCHANGED <<lens, C, cur, rd, pre, busy, started, snap, got, ended>>
Pass == /\ busy /\ slot[cur] = 0 /\ nxt > n
        /\ IF \A s \in Slots : slot[s] = 0 THEN busy' = FALSE /\ ended' = TRUE /\ UNCHANGED cur
           ELSE cur' = Step(cur) /\ UNCHANGED <<busy, ended>>
        /\ UNCHANGED <<lens, C, slot, ex, idx, nxt, rd, ready, pre, started, snap, got>>
\* The background thread.
Prepare == /\ started /\ pre <= n /\ Len(ready) < Ahead
           /\ ready' = Append(ready, pre) /\ pre' = pre + 1
           /\ UNCHANGED <<lens, C, slot, ex, idx, cur, nxt, rd, busy, started, snap, got, ended>>

\* Saving: slots that never had an input get one first.
RECURSIVE FillFrom(_, _)
FillFrom(s, m) ==   \* m: [slot, idx, nxt]
  IF s > C THEN m
  ELSE IF m.slot[s] # 0 \/ ex[s] THEN FillFrom(s + 1, m)
  ELSE IF m.nxt > n THEN m
  ELSE FillFrom(s + 1, [slot |-> [m.slot EXCEPT ![s] = m.nxt], idx |-> [m.idx EXCEPT ![s] = m.nxt], nxt |-> m.nxt + 1])
Save == /\ ~busy
        /\ LET m == IF Fill THEN FillFrom(1, [slot |-> slot, idx |-> idx, nxt |-> nxt])
                    ELSE [slot |-> slot, idx |-> idx, nxt |-> nxt]
           IN /\ slot' = m.slot /\ idx' = m.idx /\ nxt' = m.nxt
              \* opened inputs are taken from the background thread
              /\ LET k == m.nxt - nxt IN
                 IF k >= Len(ready) THEN ready' = <<>> /\ pre' = Max2(pre, m.nxt)
                 ELSE ready' = SubSeq(ready, k + 1, Len(ready)) /\ UNCHANGED pre
              /\ snap' = [have |-> TRUE, cur |-> cur, nxt |-> m.nxt, idx |-> m.idx, ex |-> ex, len |-> Len(got), ended |-> ended,
                          st |-> [s \in Slots |-> IF ex[s] THEN lens[m.idx[s]] ELSE rd[m.idx[s]]]]
        /\ UNCHANGED <<lens, C, ex, cur, rd, busy, started, got, ended>>
Restore(fresh) ==
  /\ ~busy /\ snap.have
  /\ slot' = [s \in Slots |-> IF snap.ex[s] THEN 0 ELSE snap.idx[s]]
  /\ ex' = snap.ex /\ idx' = snap.idx /\ cur' = snap.cur /\ nxt' = snap.nxt
  /\ ready' = <<>> /\ pre' = snap.nxt
  /\ rd' = [d \in 1..n |-> IF \E s \in Slots : snap.idx[s] = d THEN snap.st[CHOOSE s \in Slots : snap.idx[s] = d] ELSE 0]
  /\ started' = (started /\ ~fresh)
  /\ got' = SubSeq(Ref, 1, snap.len) /\ ended' = FALSE
  /\ UNCHANGED <<lens, C, busy, snap>>

Machine == Visit \/ Open \/ Pass \/ Prepare
Next == Ask \/ Machine \/ Save \/ \E f \in BOOLEAN : Restore(f)
Spec == Init /\ [][Next]_vars /\ WF_vars(Machine)
----------------------------------------------------------------------------
RightOrder == Len(got) <= Len(Ref) /\ got = SubSeq(Ref, 1, Len(got))
Complete == ended => got = Ref
\* Each input in its own order, nothing twice (also without looking at Ref).
PerInput == \A d \in 1..n : SelectSeq(got, LAMBDA e : e[1] = d) = [j \in 1..Len(SelectSeq(got, LAMBDA e : e[1] = d)) |-> <<d, j>>]
All == ended => \A d \in 1..n : \A j \in 1..lens[d] : \E i \in DOMAIN got : got[i] = <<d, j>>
\* At most C inputs are being read; the background thread is at most Ahead in front.
OpenBound == /\ Cardinality({s \in Slots : slot[s] # 0}) <= C
             /\ Len(ready) <= Ahead
             /\ (ready # <<>> => Head(ready) = nxt /\ pre = nxt + Len(ready))
             /\ \A s, t \in Slots : s # t /\ slot[s] # 0 => slot[s] # slot[t]
Terminates == busy ~> ~busy
=============================================================================
