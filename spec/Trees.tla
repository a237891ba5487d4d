-------------------------------- MODULE Trees --------------------------------
(***************************************************************************)
(* Structures of features (C27).                                           *)
(*                                                                         *)
(* A tree is a leaf [t |-> "l", v |-> integers], a sequence                *)
(* [t |-> "s", n |-> type, c |-> children] or a mapping                    *)
(* [t |-> "d", n |-> type, k |-> keys, c |-> children] whose keys are      *)
(* listed in the order of their insertion. Keys are integers.              *)
(*                                                                         *)
(* The order of the keys is a part of the structure in ordered mappings    *)
(* (n = "odict") only.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

IsLeaf(t) == t.t = "l"
Leaf(v) == [t |-> "l", v |-> v]

\* Labels of the children in the canonical order.
Labels(t) ==
  IF t.t = "s" THEN [i \in DOMAIN t.c |-> i - 1]
  ELSE IF t.n = "odict" THEN t.k
  ELSE SortSeq(t.k, <)

Child(t, x) == IF t.t = "s" THEN t.c[x + 1] ELSE t.c[CHOOSE i \in DOMAIN t.k : t.k[i] = x]

RECURSIVE Flatten(_)
Flatten(t) == IF IsLeaf(t) THEN <<t.v>>
              ELSE FlattenSeq([i \in DOMAIN t.c |-> Flatten(Child(t, Labels(t)[i]))])

RECURSIVE Paths(_)
Paths(t) == IF IsLeaf(t) THEN <<<<>>>>
            ELSE LET sub(x) == LET ps == Paths(Child(t, x)) IN [j \in DOMAIN ps |-> <<x>> \o ps[j]]
                 IN FlattenSeq([i \in DOMAIN t.c |-> sub(Labels(t)[i])])

RECURSIVE NLeaves(_)
NLeaves(t) == IF IsLeaf(t) THEN 1
              ELSE FoldSeq(LAMBDA c, n : n + NLeaves(c), 0, t.c)

\* The tree in normal form: keys in the canonical order.
RECURSIVE Norm(_)
Norm(t) == IF IsLeaf(t) THEN t
           ELSE IF t.t = "s" THEN [t EXCEPT !.c = TLCEval([i \in DOMAIN t.c |-> Norm(t.c[i])])]
           ELSE LET k == TLCEval(Labels(t)) IN
                [t EXCEPT !.k = k, !.c = TLCEval([i \in DOMAIN t.c |-> Norm(Child(t, k[i]))])]

\* Replaces the leaves of a structure (xs in the canonical order).
RECURSIVE Unflatten(_, _)
Unflatten(t, xs) ==
  IF IsLeaf(t) THEN Leaf(xs[1])
  ELSE LET m == TLCEval(Norm(t))
           from(i) == FoldSeq(LAMBDA c, n : n + NLeaves(c), 0, SubSeq(m.c, 1, i - 1))
       IN [m EXCEPT !.c = TLCEval([i \in DOMAIN m.c |->
             Unflatten(m.c[i], SubSeq(xs, from(i) + 1, from(i) + NLeaves(m.c[i])))])]

RECURSIVE Same(_, _)
Same(a, b) ==
  IF IsLeaf(a) \/ IsLeaf(b) THEN IsLeaf(a) /\ IsLeaf(b)
  ELSE /\ a.t = b.t
       /\ a.n = b.n
       /\ Labels(a) = Labels(b)
       /\ \A i \in DOMAIN a.c : Same(Child(a, Labels(a)[i]), Child(b, Labels(b)[i]))

Map(f(_), t) == LET xs == Flatten(t) IN Unflatten(t, TLCEval([i \in DOMAIN xs |-> f(xs[i])]))

\* Leaves of several trees of the same structure, one after the other.
Concat(ts) ==
  LET xs == TLCEval([k \in DOMAIN ts |-> Flatten(ts[k])])
  IN Unflatten(ts[1], TLCEval([i \in DOMAIN xs[1] |-> FlattenSeq([k \in DOMAIN ts |-> xs[k][i]])]))

\* The parts of a tree below the leaves of a shallow structure, flattened.
RECURSIVE UpTo(_, _)
UpTo(s, t) ==
  IF IsLeaf(s) THEN Leaf(FlattenSeq(Flatten(t)))
  ELSE LET m == Norm(s) IN
       [m EXCEPT !.c = [i \in DOMAIN m.c |-> UpTo(m.c[i], Child(t, Labels(s)[i]))]]

-----------------------------------------------------------------------------
(* Operations of pipelines over structured elements. *)

\* Groups of b consecutive elements.
Groups(xs, b, drop) ==
  LET n == IF drop THEN Len(xs) \div b ELSE (Len(xs) + b - 1) \div b
      end(i) == IF i * b < Len(xs) THEN i * b ELSE Len(xs)
  IN TLCEval([i \in 1..n |-> SubSeq(xs, (i - 1) * b + 1, end(i))])

\* Batches of elements whose leaves have w entries.
Batches(els, b, drop) == LET gs == Groups(els, b, drop) IN TLCEval([i \in DOMAIN gs |-> Concat(gs[i])])

\* All rows of batches (or elements) in which every leaf has w entries a row.
Rows(t, w) ==
  LET xs == TLCEval(Flatten(t)) IN
  TLCEval([j \in 1..(Len(xs[1]) \div w) |->
    Unflatten(t, TLCEval([i \in DOMAIN xs |-> SubSeq(xs[i], (j - 1) * w + 1, j * w)]))])
AllRows(els, w) == TLCEval(FlattenSeq([k \in DOMAIN els |-> Rows(els[k], w)]))
Rebatched(els, w, b, drop) == Batches(AllRows(els, w), b, drop)

\* The last batch is filled up with zeros.
Padded(els, w, b) ==
  LET bs == Batches(els, b, FALSE)
      pad(x) == x \o [j \in 1..(b * w - Len(x)) |-> 0]
  IN [i \in DOMAIN bs |-> Map(pad, bs[i])]

\* Packed features: every position holds tokens of the same element, that
\* of leaf p has the tag p; no token is lost or repeated. M > number of leaves.
Consistent(rows, M) ==
  \A r \in DOMAIN rows : \A p \in DOMAIN rows[r] :
    /\ Len(rows[r][p]) = Len(rows[r][1])
    /\ \A j \in DOMAIN rows[r][p] :
         IF rows[r][1][j] = 0 THEN rows[r][p][j] = 0
         ELSE /\ rows[r][p][j] % M = p
              /\ rows[r][p][j] \div M = rows[r][1][j] \div M
Bag(s) == [x \in ToSet(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
Tokens(rows) == SelectSeq(FlattenSeq([r \in DOMAIN rows |-> rows[r][1]]), LAMBDA x : x # 0)
==============================================================================
