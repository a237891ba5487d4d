---------------------------- MODULE ElasticIter ----------------------------
(***************************************************************************)
(* Design model of re-sharding iterators over shards (C17). P processes    *)
(* share S shards: process p interleaves shards p, p + P, ... with at most *)
(* c open at a time. Each process advances at its own pace. A checkpoint   *)
(* stores for every shard how far it was read and whether it has ended;    *)
(* restoring distributes the shards over any number of processes.          *)
(*                                                                         *)
(*   seen[s]   elements of shard s handed out so far (in the history that  *)
(*             was not rolled back), which is what must be preserved       *)
(*   m[p]      machine of process p: slots, future states, ...             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxS, MaxLen, MaxP, MaxC, MarkEnded

VARIABLES lens, c, P, m, seen, snap, ended, bad
vars == <<lens, c, P, m, seen, snap, ended, bad>>
S == Len(lens)
Min2(a, b) == IF a < b THEN a ELSE b
\* Shards of process p (0-based) of q.
Own(p, q) == [j \in 1..((S - p + q - 1) \div q) |-> p + (j - 1) * q + 1]
None == -1
Gone == -2

Machine(p, q) ==
  LET L == Own(p, q)
      C == Min2(c, Len(L))
  IN [L |-> L, C |-> C, slot |-> [s \in 1..C |-> 0], ex |-> [s \in 1..C |-> FALSE], idx |-> [s \in 1..C |-> s],
      cur |-> 1, nxt |-> 1, fut |-> [j \in DOMAIN L |-> None], rd |-> [j \in DOMAIN L |-> 0]]

Init == /\ \E k \in 1..MaxS : lens \in [1..k -> 0..MaxLen]
        /\ c \in 1..MaxC
        /\ P \in 1..MaxP
        /\ m = [p \in 0..(P - 1) |-> Machine(p, P)]
        /\ seen = [s \in 1..Len(lens) |-> 0]
        /\ snap = [have |-> FALSE]
        /\ ended = {} /\ bad = FALSE

\* One call of next: the machine afterwards and the local shard read (0: end).
RECURSIVE Call(_)
Call(x) ==
  LET n == Len(x.L)
      step == (x.cur % x.C) + 1
      d == x.slot[x.cur]
  IN IF d # 0
     THEN IF x.rd[d] < lens[x.L[d]]
          THEN <<[x EXCEPT !.cur = step, !.rd[d] = @ + 1], d>>
          ELSE Call([x EXCEPT !.slot[x.cur] = 0, !.ex[x.cur] = TRUE, !.cur = step])
     ELSE IF x.nxt <= n
     THEN IF x.fut[x.nxt] = Gone THEN Call([x EXCEPT !.fut[x.nxt] = None, !.nxt = @ + 1])
          ELSE Call([x EXCEPT !.slot[x.cur] = x.nxt, !.ex[x.cur] = FALSE, !.idx[x.cur] = x.nxt, !.nxt = @ + 1,
                              !.rd[x.nxt] = IF x.fut[x.nxt] >= 0 THEN x.fut[x.nxt] ELSE 0, !.fut[x.nxt] = None])
     ELSE IF \A s \in 1..x.C : x.slot[s] = 0 THEN <<x, 0>>
     ELSE Call([x EXCEPT !.cur = step])

Read(p) == /\ p \notin ended
           /\ IF m[p].C = 0 THEN ended' = ended \cup {p} /\ UNCHANGED <<m, seen, bad>>
              ELSE LET r == Call(m[p]) IN
                   /\ m' = [m EXCEPT ![p] = r[1]]
                   /\ IF r[2] = 0 THEN ended' = ended \cup {p} /\ UNCHANGED <<seen, bad>>
                      ELSE LET s == m[p].L[r[2]] IN
                           /\ bad' = (bad \/ r[1].rd[r[2]] # seen[s] + 1)
                           /\ seen' = [seen EXCEPT ![s] = @ + 1]
                           /\ UNCHANGED ended
           /\ UNCHANGED <<lens, c, P, snap>>

\* Saving gives inputs to slots that never had one.
RECURSIVE FillFrom(_, _)
FillFrom(x, s) ==
  IF s > x.C THEN x
  ELSE IF x.slot[s] # 0 \/ x.ex[s] THEN FillFrom(x, s + 1)
  ELSE IF x.nxt > Len(x.L) THEN x
  ELSE FillFrom([x EXCEPT !.slot[s] = x.nxt, !.idx[s] = x.nxt, !.nxt = @ + 1, !.rd[x.nxt] = 0], s + 1)
\* The state of local shard j of a machine that was filled: <<ended, position>>.
ShardState(x, j) ==
  IF \E s \in 1..x.C : x.idx[s] = j
  THEN LET s == CHOOSE s \in 1..x.C : x.idx[s] = j IN <<x.ex[s], x.rd[j]>>
  ELSE IF j >= x.nxt
  THEN IF x.fut[j] = Gone THEN <<TRUE, 0>> ELSE <<FALSE, IF x.fut[j] >= 0 THEN x.fut[j] ELSE 0>>
  ELSE <<TRUE, 0>>
Save == /\ LET f == [p \in DOMAIN m |-> FillFrom(m[p], 1)] IN
           /\ m' = f
           /\ snap' = [have |-> TRUE, seen |-> seen,
                       st |-> [s \in 1..S |-> LET p == (s - 1) % P IN ShardState(f[p], ((s - 1) \div P) + 1)]]
        /\ UNCHANGED <<lens, c, P, seen, ended, bad>>

RECURSIVE Take(_, _, _, _)   \* the first k of the elements j.. of a set of indices, ascending
Take(j, n, k, A) == IF k = 0 \/ j > n THEN <<>>
                    ELSE IF j \in A THEN <<j>> \o Take(j + 1, n, k - 1, A) ELSE Take(j + 1, n, k, A)
Restored(p, q, st) ==
  LET x == Machine(p, q)
      n == Len(x.L)
      state(j) == st[x.L[j]]
      act == {j \in 1..n : ~state(j)[1]}
      use == Take(1, n, x.C, act)
      fill == Take(1, n, x.C - Len(use), 1..n \ act)
      ix == use \o fill
      nx == IF use = <<>> THEN 1 ELSE use[Len(use)] + 1
  IN [x EXCEPT !.slot = [s \in 1..x.C |-> IF s <= Len(use) THEN ix[s] ELSE 0],
               !.ex = [s \in 1..x.C |-> s > Len(use)],
               !.idx = [s \in 1..x.C |-> ix[s]],
               !.nxt = nx,
               !.rd = [j \in 1..n |-> state(j)[2]],
               !.fut = [j \in 1..n |-> IF j \in act THEN (IF j >= nx THEN state(j)[2] ELSE None)
                                       ELSE IF MarkEnded /\ j >= nx THEN Gone ELSE None]]
Restore(q) == /\ snap.have
              /\ P' = q
              /\ m' = [p \in 0..(q - 1) |-> Restored(p, q, snap.st)]
              /\ seen' = snap.seen /\ ended' = {}
              /\ UNCHANGED <<lens, c, snap, bad>>

Next == (\E p \in DOMAIN m : Read(p)) \/ Save \/ \E q \in 1..MaxP : Restore(q)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
ExactlyOnce == ~bad /\ \A s \in 1..S : seen[s] <= lens[s]
AllRead == \A p \in ended : \A j \in DOMAIN m[p].L : seen[m[p].L[j]] = lens[m[p].L[j]]
\* Every shard belongs to exactly one process.
Partition == \A s \in 1..S : Cardinality({p \in DOMAIN m : \E j \in DOMAIN m[p].L : m[p].L[j] = s}) = 1
Open == \A p \in DOMAIN m : Cardinality({s \in 1..m[p].C : m[p].slot[s] # 0}) <= c
=============================================================================
