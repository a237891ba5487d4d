------------------------------ MODULE PackTrace ------------------------------
(***************************************************************************)
(* Trace specification of packing iterators (C13, C14).                    *)
(*                                                                         *)
(* A trace holds the elements (els), the features (fs), the parameters and *)
(* the rows an iterator handed out; the packed batches are computed by     *)
(* Pack.tla. With shuffling the rows of a batch may come in any order, but *)
(* in the same one whenever the batch is read again.                       *)
(*                                                                         *)
(* State: pos = rows handed out, ord = row of the packed sequence at each  *)
(* position read so far, saved = position of every saved state.            *)
(***************************************************************************)
EXTENDS Pack, Functions, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, verdict, pos, ord, saved, tr, rows
vars == <<tid, l, verdict, pos, ord, saved, tr, rows>>
View == <<tid, l, verdict>>

\* Rendered rows with their batch.
Packed(t) ==
  LET good == SubSeq(t.els, 1, IF t.bad > 0 THEN t.bad - 1 ELSE Len(t.els))
      bs == IF t.kind = "cts" THEN PackCts(good, t.fs, t.full = 1)
            ELSE PackBins(good, t.fs, t.nbins, t.maxseq, t.kind = "best", t.bad = 0)
      one(b, r) == [b |-> b, n |-> Len(bs[b][r]), r |-> Render(bs[b][r], t.fs, t.bos),
                    m |-> [j \in DOMAIN bs[b][r] |-> t.ms[CHOOSE i \in DOMAIN t.els : t.els[i] = bs[b][r][j].el]]]
  IN FlattenSeq([b \in DOMAIN bs |-> [r \in DOMAIN bs[b] |-> one(b, r)]])

Init == /\ LET ts == Traces IN \E k \in DOMAIN ts : tid = k /\ tr = ts[k] /\ rows = Packed(ts[k])
        /\ l = 1
        /\ verdict = "run"
        /\ pos = 0
        /\ ord = <<>>
        /\ saved = <<>>

\* The rows that may come at position p.
InBatch(p) == {k \in DOMAIN rows : rows[k].b = rows[p].b}
InBatchNo(b) == {k \in DOMAIN rows : rows[k].b = b}
Avail(p) == IF tr.shuffle = 0 THEN {p}
            ELSE IF p <= Len(ord) THEN {ord[p]}
            ELSE InBatch(p) \ Range(ord)
Matches(e, k) == e.f = rows[k].r /\ (tr.nm = 0 \/ e.m = rows[k].m)
Cand(e) == {k \in Avail(pos + 1) : Matches(e, k)}

\* Rows grouped by a feature: sorted by the mean of its distinct values.
Group(k) == LET vs == Range(rows[k].r[tr.group].v) IN
            <<FoldSet(LAMBDA a, b : a + b, 0, vs), Cardinality(vs \ {0})>>
LeqMean(a, b) == (IF a[2] = 0 THEN 0 ELSE a[1]) * (IF b[2] = 0 THEN 1 ELSE b[2])
                 <= (IF b[2] = 0 THEN 0 ELSE b[1]) * (IF a[2] = 0 THEN 1 ELSE a[2])

RowVerdict(e) ==
  IF pos >= Len(rows) THEN "more rows than the packed sequence"
  ELSE IF Cand(e) # {} THEN
    IF tr.group > 0 /\ pos > 0 /\ rows[pos].b = rows[pos + 1].b /\ ~LeqMean(Group(ord[pos]), Group(Min(Cand(e))))
    THEN "rows not ordered by the grouping feature" ELSE "ok"
  ELSE LET near == IF tr.shuffle = 0 THEN {pos + 1} ELSE InBatch(pos + 1) IN
       IF \E k \in near : \A f \in DOMAIN tr.fs : e.f[f].v = rows[k].r[f].v
       THEN (IF \E k \in near : Matches(e, k) THEN "row repeated or in another order than before"
             ELSE "wrong segment ids, positions or meta features")
       ELSE "wrong values in a row"

\* Batches of the operation of data loaders: the rows of batch b, then empty
\* ones, labelled with the last element (-1: unknown).
BatchVerdict(e) ==
  LET b == pos + 1
      ks == InBatchNo(b)
      m == Cardinality(ks)
      first == Min(ks)
      upto == FoldLeft(LAMBDA x, k : x + IF rows[k].b <= b THEN rows[k].n ELSE 0, 0, [k \in DOMAIN rows |-> k])
      want == [j \in 1..tr.nbins |-> IF j <= m THEN rows[first + j - 1].r ELSE Render(<<>>, tr.fs, 0)]
  IN IF ks = {} THEN "more batches than the packed sequence"
     ELSE IF e.n # 1 \/ Len(e.rows) # tr.nbins THEN "wrong number of rows in a batch"
     ELSE IF \E j \in 1..tr.nbins : \E f \in DOMAIN tr.fs : e.rows[j][f].v # want[j][f].v THEN "wrong values in a batch"
     ELSE IF e.rows # want THEN "wrong segment ids or positions in a batch"
     ELSE IF e.last # -1 /\ e.last # upto - 1 THEN "batch not labelled with its last element"
     ELSE "ok"

Total == IF tr.kind = "legacy" THEN (IF rows = <<>> THEN 0 ELSE rows[Len(rows)].b) ELSE Len(rows)

Verdict(e) ==
  CASE e.e = "batch" -> BatchVerdict(e)
    [] e.e = "row" -> RowVerdict(e)
    [] e.e = "end" -> IF pos = Total /\ tr.bad = 0 THEN "ok" ELSE "rows are missing"
    [] e.e = "err" -> IF pos = Total /\ tr.bad > 0 THEN "ok" ELSE "failed without reason"
    [] e.e = "save" -> "ok"
    [] e.e = "restore" -> "ok"
    [] e.e = "truth" -> IF e.v = 1 THEN "ok" ELSE e.what
    [] e.e = "raise" -> "unexpected " \o e.op
    [] OTHER -> "unknown event"

Effect(e) ==
  /\ pos' = CASE e.e \in {"row", "batch"} -> pos + 1
              [] e.e = "restore" -> saved[e.id]
              [] OTHER -> pos
  /\ ord' = IF e.e = "row" /\ pos + 1 > Len(ord) THEN Append(ord, Min(Cand(e))) ELSE ord
  /\ saved' = IF e.e = "save" THEN Append(saved, pos) ELSE saved

Step == /\ verdict = "run"
        /\ l <= Len(tr.ev)
        /\ LET e == tr.ev[l]
               v == Verdict(e)
           IN IF v = "ok"
              THEN Effect(e) /\ l' = l + 1 /\ UNCHANGED <<tid, verdict, tr, rows>>
              ELSE /\ verdict' = v
                   /\ PrintT(<<"REJECT", tid, l, v, e.e>>)
                   /\ UNCHANGED <<tid, l, pos, ord, saved, tr, rows>>

Done == /\ verdict = "run"
        /\ l > Len(tr.ev)
        /\ verdict' = "accept"
        /\ PrintT(<<"ACCEPT", tid>>)
        /\ UNCHANGED <<tid, l, pos, ord, saved, tr, rows>>

Next == Step \/ Done
Spec == Init /\ [][Next]_vars

TypeOK == l \in 1..(Len(tr.ev) + 1)
=============================================================================
