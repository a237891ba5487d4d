-------------------------- MODULE ElementSpecDesign --------------------------
(***************************************************************************)
(* The specifications of ElementSpec.tla describe the elements of all      *)
(* small pipelines: a behaviour grows one pipeline, together with the      *)
(* shapes of its elements.                                                 *)
(***************************************************************************)
EXTENDS ElementSpec
CONSTANTS MaxN, Sizes, Depth

VARIABLES p, els, depth
vars == <<p, els, depth>>

Alike == \A i \in DOMAIN els : els[i] = els[1]
Count(n, b, drop) == IF drop = 1 THEN n \div b ELSE (n + b - 1) \div b
Fill(n, b, i) == IF i * b <= n THEN b ELSE n - (i - 1) * b
Grouped(n, b, drop, end) == [i \in 1..Count(n, b, drop) |-> Change(els[1], <<end, Fill(n, b, i)>>)]
\* RowSet of a batch: the first dimension, which all leaves have in common.
RECURSIVE RowSet(_)
RowSet(t) == IF IsLeaf(t) THEN {IF t.v = <<>> THEN 0 ELSE t.v[1]} ELSE UNION {RowSet(t.c[i]) : i \in DOMAIN t.c}
IsBatched == els # <<>> /\ \A i \in DOMAIN els : Cardinality(RowSet(els[i])) = 1 /\ 0 \notin RowSet(els[i])
RowsIn(t) == CHOOSE r \in RowSet(t) : TRUE
RowCount == FoldSeq(LAMBDA t, n : n + RowsIn(t), 0, els)
\* Batches are alike but for their rows.
Rebatchable == IsBatched /\ \A i \in DOMAIN els : Change(els[i], <<"first", 1>>) = Change(els[1], <<"first", 1>>)
Rest(n, b) == n % b

Init == /\ \E n \in 0..MaxN : p = [op |-> "range", n |-> n] /\ els = [i \in 1..n |-> Array(<<>>, "int64")]
        /\ depth = 0
Keep == \E n \in 0..Len(els) : p' = [op |-> "keep", p |-> p] /\ els' = SubSeq(els, 1, n)
Maps == \E k \in {"float", "wrap", "axis", "pair", "pick"} :
          p' = [op |-> "map", p |-> p, k |-> k] /\ els' = [i \in DOMAIN els |-> Mapped(els[i], k)]
Batch == \E b \in Sizes, d \in {0, 1}, o \in {"batch", "cbatch"} :
           /\ els # <<>> /\ Alike
           /\ p' = [op |-> o, p |-> p, b |-> b, drop |-> d]
           /\ els' = Grouped(Len(els), b, d, IF o = "batch" THEN "front" ELSE "back")
\* Without `drop`, the number of rows is a multiple of b.
Rebatch == \E b \in Sizes, d \in {0, 1} :
           /\ Rebatchable /\ (d = 1 \/ RowCount % b = 0)
           /\ p' = [op |-> "rebatch", p |-> p, b |-> b, drop |-> d]
           /\ els' = [i \in 1..(RowCount \div b) |-> Change(els[1], <<"first", b>>)]
Zipped == p' = [op |-> "zip", ps |-> <<p, p>>] /\ els' = [i \in DOMAIN els |-> Tuple(<<els[i], els[i]>>)]
First == p' = [op |-> "first", ps |-> <<p, p>>] /\ els' = els \o els
Next == depth < Depth /\ depth' = depth + 1 /\ (Keep \/ Maps \/ Batch \/ Rebatch \/ Zipped \/ First)
Spec == Init /\ [][Next]_vars

\* Both ways to state a dimension that may be either.
RECURSIVE Pick(_, _)
Pick(t, known) ==
  IF IsLeaf(t) THEN [t EXCEPT !.v = [i \in DOMAIN t.v |-> IF t.v[i] > -1000 THEN t.v[i] ELSE IF known THEN -1000 - t.v[i] ELSE None]]
  ELSE [t EXCEPT !.c = [i \in DOMAIN t.c |-> Pick(t.c[i], known)]]
Describes == \A known \in BOOLEAN, i \in DOMAIN els : Admits(Pick(SpecOf(p), known), els[i])
StatesItself == \A known \in BOOLEAN : Stated(SpecOf(p), Pick(SpecOf(p), known))
=============================================================================
