---------------------------- MODULE ElasticTrace ----------------------------
(***************************************************************************)
(* Trace specification of a job that is checkpointed and restored with     *)
(* another number of processes (C17).                                      *)
(*                                                                         *)
(* Random-access datasets ("map"): seq is the dataset, g the index of the  *)
(* first element that belongs to the current processes, k[p] the steps     *)
(* process p has made. Step k of all processes together is the k-th global *)
(* batch after g, of which p gets the elements p, p + P, ...               *)
(*                                                                         *)
(* Iterators over shards ("iter"): rd[s] elements of shard s have been     *)
(* read. A process hands out the elements of its shards p, p + P, .. in    *)
(* the order of each shard. As long as the processes did not change, the   *)
(* order is that of interleaving its shards (exact, pos[p]).               *)
(***************************************************************************)
EXTENDS Pipe, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Procs == 0..15
Snaps == 0..2

VARIABLES tid, l, P, B, g, k, rd, pos, exact, snap, verdict, tr
vars == <<tid, l, P, B, g, k, rd, pos, exact, snap, verdict, tr>>
View == <<tid, l, P, B, g, k, rd, pos, exact, snap, verdict>>

Init == /\ LET ts == Traces IN \E i \in DOMAIN ts :
             /\ tid = i
             /\ tr = [kind |-> ts[i].kind, ev |-> ts[i].ev, tree |-> IF ts[i].kind = "iter" THEN ts[i].tree ELSE <<>>,
                      seq |-> IF ts[i].kind = "map" THEN MSeq(ts[i].ast) ELSE <<>>,
                      shards |-> IF ts[i].kind = "iter" THEN [s \in DOMAIN ts[i].shards |-> ISeq(ts[i].shards[s])] ELSE <<>>]
        /\ l = 1 /\ P = 0 /\ B = 0 /\ g = 0
        /\ k = [p \in Procs |-> 0] /\ pos = [p \in Procs |-> 0]
        /\ rd = [s \in DOMAIN tr.shards |-> 0]
        /\ exact = TRUE /\ snap = [s \in Snaps |-> [have |-> FALSE]]
        /\ verdict = "run"
Ev == tr.ev
N == Len(tr.seq)
HB == IF B = 0 THEN 1 ELSE B \div P
Steps == IF N <= g THEN 0 ELSE (N - g) \div B

Own(p) == [j \in 1..((Len(tr.shards) - p + P - 1) \div P) |-> p + (j - 1) * P + 1]
OwnSet(p) == {Own(p)[j] : j \in DOMAIN Own(p)}
Flat(p) == ISeq(SlicePipe(tr.tree, p, P))
\* Reading positions after process p has handed out the elements v[j..], or
\* <<>> if one of them is not the next one of a shard of p.
RECURSIVE Reads(_, _, _, _)
Reads(p, r, v, j) ==
  IF j > Len(v) THEN r
  ELSE LET ss == {s \in OwnSet(p) : r[s] < Len(tr.shards[s]) /\ tr.shards[s][r[s] + 1] = <<v[j]>>}
       IN IF ss = {} THEN <<>>
          ELSE LET s == CHOOSE s \in ss : TRUE IN Reads(p, [r EXCEPT ![s] = @ + 1], v, j + 1)
Empty(p, r) == \A s \in OwnSet(p) : r[s] = Len(tr.shards[s])

NextVerdict(e) ==
  IF tr.kind = "map"
  THEN IF k[e.p] >= Steps THEN "element after the last complete global batch"
       ELSE IF e.v # [j \in 1..HB |-> tr.seq[g + e.p + P * (k[e.p] * HB + j - 1) + 1][1]] THEN "not the share of the global batch"
       ELSE "ok"
  ELSE LET r == Reads(e.p, rd, e.v, 1) IN
       IF e.v # <<>> /\ r = <<>> THEN "element lost, repeated, out of order or of another process"
       ELSE IF Len(e.v) > HB \/ Len(e.v) = 0 THEN "wrong batch size"
       ELSE IF Len(e.v) < HB /\ ~Empty(e.p, r) THEN "incomplete batch before the end"
       ELSE IF exact /\ \E j \in DOMAIN e.v : Flat(e.p)[pos[e.p] + j] # <<e.v[j]>> THEN "wrong order"
       ELSE "ok"
Judge(e) ==
  CASE e.e \in {"start", "restore"} ->
         IF e.e = "restore" /\ ~snap[e.s].have THEN "harness: unknown snapshot" ELSE "ok"
    [] e.e = "next" -> NextVerdict(e)
    [] e.e = "stop" -> IF tr.kind = "map" THEN (IF k[e.p] = Steps THEN "ok" ELSE "end of data too early")
                       ELSE IF Empty(e.p, rd) THEN "ok" ELSE "end of data too early"
    [] e.e = "save" -> IF tr.kind = "map" /\ \E p, q \in 0..(P - 1) : k[p] # k[q] THEN "harness: processes at different steps"
                       ELSE IF tr.kind = "map" /\ ~e.same THEN "processes at the same step have different states"
                       ELSE "ok"
    [] e.e = "done" -> \* all processes have been drained
         IF tr.kind = "map" \/ \A s \in DOMAIN rd : rd[s] = Len(tr.shards[s]) THEN "ok" ELSE "elements are missing"
    [] e.e = "raise" -> "operation failed: " \o e.op

Effect(e) ==
  CASE e.e = "start" -> /\ P' = e.q /\ B' = e.b /\ g' = 0 /\ k' = [p \in Procs |-> 0] /\ pos' = [p \in Procs |-> 0]
                        /\ rd' = [s \in DOMAIN tr.shards |-> 0] /\ exact' = TRUE /\ UNCHANGED snap
    [] e.e = "restore" ->
         LET s == snap[e.s] IN
         /\ P' = e.q /\ B' = e.b /\ g' = s.g /\ k' = [p \in Procs |-> 0]
         /\ rd' = s.rd /\ pos' = (IF e.elastic THEN [p \in Procs |-> 0] ELSE s.pos) /\ exact' = (s.exact /\ ~e.elastic) /\ UNCHANGED snap
    [] e.e = "next" -> /\ k' = [k EXCEPT ![e.p] = @ + 1]
                       /\ IF tr.kind = "map" THEN UNCHANGED <<rd, pos>>
                          ELSE rd' = Reads(e.p, rd, e.v, 1) /\ pos' = [pos EXCEPT ![e.p] = @ + Len(e.v)]
                       /\ UNCHANGED <<P, B, g, exact, snap>>
    [] e.e = "save" -> /\ snap' = [snap EXCEPT ![e.s] = [have |-> TRUE, g |-> g + k[0] * B, rd |-> rd, pos |-> pos, exact |-> exact]]
                       /\ UNCHANGED <<P, B, g, k, rd, pos, exact>>
    [] OTHER -> UNCHANGED <<P, B, g, k, rd, pos, exact, snap>>

Step == /\ verdict = "run"
        /\ l <= Len(Ev)
        /\ LET e == Ev[l]
               j == Judge(e)
           IN IF j = "ok"
              THEN Effect(e) /\ l' = l + 1 /\ UNCHANGED <<tid, verdict>>
              ELSE /\ verdict' = j
                   /\ PrintT(<<"REJECT", tid, l, j, e.e>>)
                   /\ UNCHANGED <<tid, l, P, B, g, k, rd, pos, exact, snap>>
Done == /\ verdict = "run"
        /\ l = Len(Ev) + 1
        /\ verdict' = "accept"
        /\ PrintT(<<"ACCEPT", tid>>)
        /\ UNCHANGED <<tid, l, P, B, g, k, rd, pos, exact, snap>>
Next == (Step \/ Done) /\ tr' = tr
Spec == Init /\ [][Next]_vars
TypeOK == \A s \in DOMAIN rd : rd[s] \in 0..Len(tr.shards[s])
=============================================================================
