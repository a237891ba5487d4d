----------------------------- MODULE PackDesign -----------------------------
(***************************************************************************)
(* The packing algorithms of Pack.tla meet their obligations, for all      *)
(* small inputs.                                                           *)
(***************************************************************************)
EXTENDS Pack, TLC
CONSTANTS MaxEls, MaxLen, Caps, Bins

VARIABLES cfg, els, out
vars == <<cfg, els, out>>

\* Elements of two features; values identify element, feature and position.
El(i, a, b) == <<[j \in 1..a |-> 1000 * i + j], [j \in 1..b |-> 1000 * i + 500 + j]>>
Feat(c, al, m) == [cap |-> c, align |-> al, pad |-> 0, meta |-> m, bos |-> 0]
BinFs(c) == <<Feat(c, 1, 0), Feat(2, 2, 0)>>
CtsFs(c, m) == <<Feat(c, 1, 0), Feat(2, 1, m)>>

Do(c, e) ==
  IF c.kind = "bins" THEN PackBins(e, BinFs(c.cap), c.nbins, c.maxseq, c.best, TRUE)
  ELSE PackCts(e, CtsFs(c.cap, c.meta), c.full)

Cfgs == [kind : {"bins"}, cap : Caps, nbins : Bins, maxseq : {0, 2}, best : BOOLEAN] \cup
        [kind : {"cts"}, cap : Caps, meta : {0, 1}, full : BOOLEAN]

Init == cfg \in Cfgs /\ els = <<>> /\ out = <<>>
\* Elements are added one after the other.
Next == /\ Len(els) < MaxEls
        /\ \E a \in 0..MaxLen, b \in 0..2 :
             /\ cfg.kind = "bins" => a <= cfg.cap
             /\ els' = Append(els, El(Len(els) + 1, a, b))
        /\ out' = Do(cfg, els')
        /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars

fs == IF cfg.kind = "bins" THEN BinFs(cfg.cap) ELSE CtsFs(cfg.cap, cfg.meta)
RowSeq == FlattenSeq(out)
Pieces == FlattenSeq(RowSeq)

\* Nothing beyond the capacity; pieces one after the other; contents as in the element.
RowsOK == \A r \in DOMAIN RowSeq : LET row == RowSeq[r] IN
  /\ row # <<>>
  /\ \A f \in DOMAIN fs : \A j \in DOMAIN row :
       LET n(x) == x.to[f] - x.from[f] IN
       /\ n(row[j]) >= 0
       /\ row[j].start[f] + n(row[j]) <= fs[f].cap
       /\ j > 1 => row[j].start[f] >= row[j - 1].start[f] + n(row[j - 1])
\* The values of an element's feature over all rows, in the order of the rows.
Values(i, f) == FlattenSeq([j \in DOMAIN Pieces |->
                  IF Pieces[j].el = els[i] THEN SubSeq(els[i][f], Pieces[j].from[f] + 1, Pieces[j].to[f]) ELSE <<>>])
Times(i) == Cardinality({j \in DOMAIN Pieces : Pieces[j].el = els[i]})
Distinct == \A i, j \in DOMAIN els : i # j => els[i] # els[j]
\* Bins: every element once and whole.
BinsOK == (cfg.kind = "bins" /\ Distinct) => \A i \in DOMAIN els :
            Times(i) = 1 /\ \A f \in DOMAIN fs : Values(i, f) = els[i][f]
\* Concat-then-split: the tokens of every element in order and once.
CtsOK == (cfg.kind = "cts" /\ Distinct) => \A i \in DOMAIN els :
           /\ \A f \in DOMAIN fs : fs[f].meta = 0 => Values(i, f) = els[i][f]
           /\ Times(i) >= 1
\* With one splittable feature (and no room needed for others) only the last row has padding.
NoPadding == (cfg.kind = "cts" /\ cfg.full /\ \A i \in DOMAIN els : Len(els[i][2]) = 0) =>
  \A r \in 1..(Len(RowSeq) - 1) :
    FoldLeft(LAMBDA x, p : x + p.to[1] - p.from[1], 0, RowSeq[r]) = fs[1].cap
\* A batch of bins ends only because the next element fits nowhere.
Free(row, f) == LET p == row[Len(row)] IN RoundUp(p.start[f] + p.to[f] - p.from[f], fs[f].align)
Full == (cfg.kind = "bins" /\ Distinct) => \A k \in 1..(Len(out) - 1) :
  LET el == out[k + 1][1][1].el
      fits(row) == /\ \A f \in DOMAIN fs : Free(row, f) + Len(el[f]) <= fs[f].cap
                   /\ cfg.maxseq = 0 \/ Len(row) < cfg.maxseq
      nb == out[k]
  IN /\ Len(nb) = cfg.nbins
     /\ \A r \in DOMAIN nb : ~fits(nb[r])
\* At the end: some element was added (non-vacuity is checked by the counts).
=============================================================================
