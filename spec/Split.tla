------------------------------- MODULE Split -------------------------------
(***************************************************************************)
(* The two ways Grain splits n elements among k workers or shards, and     *)
(* what they must achieve; checked for all small n and k.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

CONSTANTS MaxN, MaxK
VARIABLES n, k, drop
vars == <<n, k, drop>>

Min2(a, b) == IF a < b THEN a ELSE b
\* Consecutive pieces, the remainder spread over the first pieces.
Start(i) == (n \div k) * i + (IF drop THEN 0 ELSE Min2(i, n % k))
Stop(i) == (n \div k) * (i + 1) + (IF drop THEN 0 ELSE Min2(i + 1, n % k))
Piece(i) == Start(i)..(Stop(i) - 1)
\* Every k-th element.
Stride(i) == {x \in 0..(n - 1) : x % k = i}

Init == n \in 0..MaxN /\ k \in 1..MaxK /\ drop \in BOOLEAN
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Partition(F(_), all) ==
  /\ UNION {F(i) : i \in 0..(k - 1)} = all
  /\ \A i, j \in 0..(k - 1) : i # j => F(i) \cap F(j) = {}
Even(F(_), d) == \A i, j \in 0..(k - 1) : Cardinality(F(i)) - Cardinality(F(j)) <= d
All == 0..((IF drop THEN (n \div k) * k ELSE n) - 1)
EvenSplitOK == Partition(Piece, All) /\ Even(Piece, IF drop THEN 0 ELSE 1)
StridesOK == Partition(Stride, 0..(n - 1)) /\ Even(Stride, 1)
\* A shard that splits its piece again (hosts, then workers) still partitions.
Again(s, t) == {x \in 0..(n - 1) : x % k = s /\ (x \div k) % k = t}
NestedOK == /\ UNION {Again(s, t) : s \in 0..(k - 1), t \in 0..(k - 1)} = 0..(n - 1)
            /\ \A s, t, u, v \in 0..(k - 1) : <<s, t>> # <<u, v>> => Again(s, t) \cap Again(u, v) = {}
=============================================================================
