-------------------------------- MODULE Pack --------------------------------
(***************************************************************************)
(* Packing of sequences into rows.                                         *)
(*                                                                         *)
(* An element is a sequence of features, a feature a sequence of values.   *)
(* fs[f] describes feature f: cap(acity), align(ment), pad(ding value),    *)
(* meta (1: no segment ids and positions; never split), bos (1: the first  *)
(* token of every piece is replaced).                                      *)
(*                                                                         *)
(* A row is a sequence of pieces [el, from, start]: for every feature f    *)
(* the values el[f][from[f]+1 .. to[f]] are placed at start[f]+1 ...       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

Whole(el) == [f \in DOMAIN el |-> Len(el[f])]
Zeros(el) == [f \in DOMAIN el |-> 0]
RoundUp(n, a) == ((n + a - 1) \div a) * a

----------------------------------------------------------------------------
(* First-fit and best-fit: bins are filled until an element fits in none.   *)
\* A bin: its pieces and the first free cell of every feature.
EmptyBin(fs) == [row |-> <<>>, free |-> [f \in DOMAIN fs |-> 0]]

Fits(b, el, fs, maxseq) ==
  /\ \A f \in DOMAIN fs : b.free[f] + Len(el[f]) <= fs[f].cap
  /\ maxseq = 0 \/ Len(b.row) < maxseq

TooLong(el, fs) == \E f \in DOMAIN fs : Len(el[f]) > fs[f].cap

Put(b, el, fs) ==
  [row |-> Append(b.row, [el |-> el, from |-> Zeros(el), to |-> Whole(el), start |-> b.free]),
   free |-> [f \in DOMAIN fs |-> RoundUp(b.free[f] + Len(el[f]), fs[f].align)]]

Used(b) == FoldLeft(LAMBDA x, y : x + y, 0, b.free)

\* The bin to use: the first that fits, or the fullest one (first on ties).
ChooseBin(bins, el, fs, maxseq, best) ==
  LET ok == {k \in DOMAIN bins : Fits(bins[k], el, fs, maxseq)}
      top == Max({Used(bins[k]) : k \in ok})
  IN IF ok = {} THEN 0
     ELSE IF best THEN Min({k \in ok : Used(bins[k]) = top}) ELSE Min(ok)

Rows(bins) == LET ne == SelectSeq(bins, LAMBDA b : Len(b.row) > 0) IN [k \in DOMAIN ne |-> ne[k].row]

\* All batches of rows for elements els; the last batch only if closed.
PackBins(els, fs, nbins, maxseq, best, closed) ==
  LET empty == [k \in 1..nbins |-> EmptyBin(fs)]
      Step(s, el) ==
        LET k == ChooseBin(s.bins, el, fs, maxseq, best)
            k2 == ChooseBin(empty, el, fs, maxseq, best)
        IN IF k # 0 THEN [s EXCEPT !.bins[k] = Put(@, el, fs)]
           ELSE [out |-> Append(s.out, Rows(s.bins)), bins |-> [empty EXCEPT ![k2] = Put(@, el, fs)]]
      fin == FoldLeft(Step, [out |-> <<>>, bins |-> empty], els)
  IN IF closed /\ Rows(fin.bins) # <<>> THEN Append(fin.out, Rows(fin.bins)) ELSE fin.out

----------------------------------------------------------------------------
(* Concat-then-split: elements are concatenated in a buffer until a feature *)
(* overflows; the element that overflows is split.                          *)
\* The rest of an element: pieces [el, from].
Fresh(el) == [el |-> el, from |-> Zeros(el)]
RestLen(r, f, fs) == IF fs[f].meta = 1 THEN Len(r.el[f]) ELSE Len(r.el[f]) - r.from[f]

FullLength(el, fs) ==
  /\ \A f \in DOMAIN fs : Len(el[f]) <= fs[f].cap
  /\ \E f \in DOMAIN fs : Len(el[f]) = fs[f].cap

\* Adding r to a buffer: [ok, buf, rest, split]
AddCts(buf, r, fs) ==
  LET avail(f) == fs[f].cap - buf.free[f]
      metafit == \A f \in DOMAIN fs : fs[f].meta = 1 => RestLen(r, f, fs) <= avail(f)
      split == \E f \in DOMAIN fs : fs[f].meta = 0 /\ RestLen(r, f, fs) > avail(f)
      take(f) == IF RestLen(r, f, fs) > avail(f) THEN avail(f) ELSE RestLen(r, f, fs)
      to == [f \in DOMAIN fs |-> IF fs[f].meta = 1 THEN Len(r.el[f]) ELSE r.from[f] + take(f)]
      nothing == split /\ \A f \in DOMAIN fs : fs[f].meta = 0 => to[f] = 0
      from == [f \in DOMAIN fs |-> IF fs[f].meta = 1 THEN 0 ELSE r.from[f]]
  IN IF ~metafit \/ nothing THEN [buf |-> buf, rest |-> <<r>>]
     ELSE [buf |-> [row |-> Append(buf.row, [el |-> r.el, from |-> from, to |-> to, start |-> buf.free]),
                    free |-> [f \in DOMAIN fs |-> buf.free[f] + take(f)]],
           rest |-> IF split THEN <<[el |-> r.el, from |-> to]>> ELSE <<>>]

\* Rows in the order they are emitted. passed: rows of elements that were of
\* full length already; they come after the row of the buffer.
RECURSIVE CtsRec(_, _, _, _, _, _)
CtsRec(els, rest, buf, passed, fs, full) ==
  LET emit == (IF buf.row = <<>> THEN <<>> ELSE <<buf.row>>) \o passed
      a == AddCts(buf, rest[1], fs)
      b == AddCts(buf, Fresh(els[1]), fs)
  IN IF rest # <<>> THEN
       IF a.rest # <<>> THEN   \* the row is full
         LET e2 == (IF a.buf.row = <<>> THEN <<>> ELSE <<a.buf.row>>) \o passed
         IN IF e2 = <<>> THEN <<>>   \* (an element that never fits)
            ELSE e2 \o CtsRec(els, a.rest, EmptyBin(fs), <<>>, fs, full)
       ELSE CtsRec(els, <<>>, a.buf, passed, fs, full)
     ELSE IF els = <<>> THEN emit
     ELSE IF ~full /\ FullLength(els[1], fs)
       THEN CtsRec(Tail(els), <<>>, buf,
                   Append(passed, <<[el |-> els[1], from |-> Zeros(els[1]), to |-> Whole(els[1]),
                                     start |-> Zeros(els[1])]>>), fs, full)
     ELSE IF b.rest # <<>> THEN
       LET e2 == (IF b.buf.row = <<>> THEN <<>> ELSE <<b.buf.row>>) \o passed
       IN IF e2 = <<>> THEN <<>> ELSE e2 \o CtsRec(Tail(els), b.rest, EmptyBin(fs), <<>>, fs, full)
     ELSE CtsRec(Tail(els), <<>>, b.buf, passed, fs, full)

PackCts(els, fs, full) ==
  LET rows == CtsRec(els, <<>>, EmptyBin(fs), <<>>, fs, full)
  IN [k \in DOMAIN rows |-> <<rows[k]>>]

----------------------------------------------------------------------------
(* What a row looks like: values, segment ids and positions.                *)
PieceAt(row, f, c) ==
  {j \in DOMAIN row : row[j].start[f] < c /\ c <= row[j].start[f] + row[j].to[f] - row[j].from[f]}
Render(row, fs, bos) ==
  [f \in DOMAIN fs |->
     LET at(c) == CHOOSE j \in PieceAt(row, f, c) : TRUE
         off(c) == c - row[at(c)].start[f]
         in(c) == PieceAt(row, f, c) # {}
         v == [c \in 1..fs[f].cap |->
                 IF ~in(c) THEN fs[f].pad
                 ELSE IF fs[f].bos = 1 /\ off(c) = 1 THEN bos
                 ELSE row[at(c)].el[f][row[at(c)].from[f] + off(c)]]
     IN IF fs[f].meta = 1 THEN [v |-> v, s |-> <<>>, p |-> <<>>]
        ELSE [v |-> v,
              s |-> [c \in 1..fs[f].cap |-> IF in(c) THEN at(c) ELSE 0],
              p |-> [c \in 1..fs[f].cap |-> IF in(c) THEN off(c) - 1 ELSE 0]]]
=============================================================================
