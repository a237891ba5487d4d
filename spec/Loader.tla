------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* What a data loader yields (C15): the records its sampler prescribes for *)
(* the shard, split over the workers, transformed by the operations and    *)
(* interleaved round-robin.                                                *)
(*                                                                         *)
(* A loader is a record                                                    *)
(*   table  record keys by global index, tlen = number of indices          *)
(*   s, c, drop   shard index, shard count, drop_remainder                 *)
(*   wk     number of workers (0: in process)                              *)
(*   ops    sequence of operations                                         *)
(*   draws  draws[g + 1][k]: the k-th random draw of the record at global  *)
(*          index g                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

----------------------------------------------------------------------------
\* Samplers.
\* The s-th of c even consecutive pieces of 0..n-1 (drop: all of equal size).
ShardStart(n, s, c, drop) ==
  IF drop = 1 THEN s * (n \div c)
  ELSE s * (n \div c) + (IF s < n % c THEN s ELSE n % c)
ShardLen(n, s, c, drop) ==
  (n \div c) + (IF drop = 0 /\ s < n % c THEN 1 ELSE 0)
SeqLen(n, c, drop) == IF drop = 1 THEN (n \div c) * c ELSE n
\* IndexSampler: indices g, g+c, g+2c, .. belong to one shard and visit its
\* piece again and again. nosh = 1: the sampler itself does not shard.
IndexLen(n, s, c, drop, epochs) ==
  IF drop = 1 THEN (n \div c) * c * epochs ELSE n * epochs
\* Local length of a loader's shard: indices s, s + c, ... below tlen.
LocalLen(tlen, s, c, drop) ==
  (tlen \div c) + (IF drop = 0 /\ s < (tlen % c) THEN 1 ELSE 0)
\* Without shuffling.
IndexKey(n, s, c, drop, g) ==
  ShardStart(n, s, c, drop) + ((g \div c) % ShardLen(n, s, c, drop))

----------------------------------------------------------------------------
\* Operations on a sequence of records [g, sh, v, rd].
Apply(rs, op, draws) ==
  CASE op.op = "map" -> [j \in DOMAIN rs |-> [rs[j] EXCEPT !.v = [i \in DOMAIN @ |-> @[i] + op.k]]]
    [] op.op = "rmap" ->
         [j \in DOMAIN rs |-> [rs[j] EXCEPT !.v = [i \in DOMAIN @ |-> @[i] + draws[rs[j].g + 1][rs[j].rd + 1]],
                                            !.rd = @ + 1]]
    [] op.op = "filter" -> SelectSeq(rs, LAMBDA r : (r.v[1] % op.m) # op.r)
    [] op.op = "flat" ->
         FlattenSeq([j \in DOMAIN rs |-> [i \in 1..(rs[j].v[1] % (op.k + 1)) |->
                       [rs[j] EXCEPT !.v = [x \in DOMAIN @ |-> @[x] + 1000 * i]]]])
    [] op.op = "batch" ->
         LET b == op.b
             n == IF op.drop = 1 THEN Len(rs) \div b ELSE (Len(rs) + b - 1) \div b
             grp(j) == SubSeq(rs, (j - 1) * b + 1, IF j * b < Len(rs) THEN j * b ELSE Len(rs))
         IN [j \in 1..n |-> [g |-> Last(grp(j)).g, rd |-> Last(grp(j)).rd,
                             sh |-> <<Len(grp(j))>> \o grp(j)[1].sh,
                             v |-> FlattenSeq([i \in DOMAIN grp(j) |-> grp(j)[i].v])]]
ApplyAll(rs, ops, draws) == FoldLeft(LAMBDA x, op : Apply(x, op, draws), rs, ops)

\* Round-robin over streams; exhausted ones are left out.
RoundRobinSeq(ss) ==
  LET m == Max({Len(ss[w]) : w \in DOMAIN ss} \cup {0}) IN
  FlattenSeq([i \in 1..m |-> FlattenSeq([w \in DOMAIN ss |-> IF i <= Len(ss[w]) THEN <<ss[w][i]>> ELSE <<>>])])

\* Local positions of worker w (0-based) of wk.
WorkerPositions(len, w, wk) == [k \in 1..((len - w + wk - 1) \div wk) |-> w + (k - 1) * wk]

LocalRecords(ld) ==
  [j \in 1..LocalLen(ld.tlen, ld.s, ld.c, ld.drop) |->
     LET g == (j - 1) * ld.c + ld.s IN [g |-> g, rd |-> 0, sh |-> <<>>, v |-> <<ld.table[g + 1]>>]]

LSeq(ld) ==
  LET rs == LocalRecords(ld)
      wk == IF ld.wk = 0 THEN 1 ELSE ld.wk
      stream(w) == ApplyAll([k \in DOMAIN WorkerPositions(Len(rs), w, wk) |->
                               rs[WorkerPositions(Len(rs), w, wk)[k] + 1]], ld.ops, ld.draws)
      out == RoundRobinSeq([w \in 1..wk |-> stream(w - 1)])
  IN [j \in DOMAIN out |-> <<Len(out[j].sh)>> \o out[j].sh \o out[j].v]

----------------------------------------------------------------------------
\* Samplers as observed: table = keys by global index (of this shard's indices
\* s, s+c, ...), every -1 elsewhere.
\* e.kind = "seq" | "index"; e.n, e.s, e.c, e.drop, e.epochs (0: endless),
\* e.shuffle, e.nosh.
OwnKeys(e) == [k \in 1..((Len(e.table) - e.s + e.c - 1) \div e.c) |-> e.table[(k - 1) * e.c + e.s + 1]]
\* every window of w keys visits each key of S at most (complete windows: exactly) once
Windows(ks, w, S) ==
  \A j \in 0..(Len(ks) \div (IF w = 0 THEN 1 ELSE w)) :
    LET win == SubSeq(ks, j * w + 1, IF (j + 1) * w < Len(ks) THEN (j + 1) * w ELSE Len(ks))
    IN /\ ToSet(win) \subseteq S
       /\ Cardinality(ToSet(win)) = Len(win)
TableVerdict(e) ==
  LET ks == OwnKeys(e)
      c == e.c
      st == ShardStart(e.n, e.s, c, e.drop)
      ln == ShardLen(e.n, e.s, c, e.drop)
      S == st..(st + ln - 1)
      want == ln * e.epochs          \* every key of the shard once per epoch
      \* with uneven shards the repeated epochs are known to be cut unevenly
      lax == e.kind = "index" /\ e.drop = 0 /\ e.epochs > 1 /\ (e.n % c) # 0
      model == LocalLen(IndexLen(e.n, e.s, c, e.drop, e.epochs), e.s, c, e.drop)
  IN IF e.kind = "seq" THEN
       IF e.tlen # SeqLen(e.n, c, e.drop) THEN "wrong length of the sampler"
       ELSE IF e.table # [g \in 1..e.tlen |-> g - 1] THEN "sequential sampler out of order"
       ELSE "ok"
     ELSE IF e.epochs > 0 /\ Len(ks) # want /\ ~(lax /\ Len(ks) = model) THEN "wrong number of records in the shard"
     ELSE IF e.shuffle = 0 /\ \E k \in DOMAIN ks : ks[k] # st + ((k - 1) % ln) THEN "sampler out of order"
     ELSE IF ~Windows(ks, ln, S) THEN "an epoch of the sampler does not visit every record of the shard once"
     ELSE "ok"
\* The keys of all shards together, in all epochs.
CoverVerdict(e) ==
  LET all == FlattenSeq(e.parts) IN
  IF \A k \in 0..(e.n - 1) : Cardinality({j \in DOMAIN all : all[j] = k}) = e.epochs
  THEN "ok" ELSE "the shards together do not visit every record once per epoch"
=============================================================================
