------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* Options of pipelines (C31).  An options record has a field for every    *)
(* option that can be set; a field that was not set is Unset.  Options set  *)
(* later win, field by field, and hold in the whole pipeline, before and    *)
(* after the place where they are set.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Unset == -1

\* a set after b
Over(a, b) == [f \in DOMAIN a |-> IF a[f] = Unset THEN b[f] ELSE a[f]]

(***************************************************************************)
(* Streams: what an iterator yields, and how it ends (Ends, or the number  *)
(* of elements of the last window that a filter refused, when that is too  *)
(* many).  A filter looks at its elements in windows of W; after the last  *)
(* element of a window it fails if it skipped more than the limit.         *)
(***************************************************************************)
Ends == -1

\* keep: one entry per element seen; out: the value of each
Filtered(vals, end, keep, W, limit) ==
  LET n == Len(vals)
      skipped == TLCEval([w \in 1..(n \div W) |-> Cardinality({i \in ((w - 1) * W + 1)..(w * W) : ~keep[i]})])
      B == IF limit < 0 THEN {}      \* no limit
           ELSE {w \in DOMAIN skipped : skipped[w] > limit}
      bad == TLCEval(IF B = {} THEN 0 ELSE CHOOSE w \in B : \A x \in B : w <= x)
      kept == TLCEval(SelectSeq([i \in 1..(IF bad = 0 THEN n ELSE bad * W - 1) |-> i], LAMBDA i : keep[i]))
  IN [v |-> TLCEval([i \in DOMAIN kept |-> vals[kept[i]]]),
      end |-> IF bad = 0 THEN end ELSE skipped[bad]]
=============================================================================
