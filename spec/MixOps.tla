------------------------------- MODULE MixOps -------------------------------
(***************************************************************************)
(* Mixtures of components by integer weights: the obligations a selection  *)
(* has to meet (Share, ExactLen), and the design that meets them (Pick).   *)
(*                                                                         *)
(* A selection assigns to every position k = 0, 1, ... a component and a   *)
(* key (the position within that component).                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

SumW(w) == FoldLeft(LAMBDA a, b : a + b, 0, w)
Abs(x) == IF x < 0 THEN -x ELSE x

\* cnt[c] elements of component c after n elements: within one of the exact
\* share for two components, and within one per further component otherwise.
\* (weights are resolved to 1% of the smallest one if tol)
Share(w, cnt, n, c, tol) ==
  LET W == SumW(w)
      d == Abs(cnt * W - n * w[c])
      f == Len(w) - 1
  IN IF Len(w) = 1 THEN cnt = n
     ELSE IF tol THEN 100 * d <= 100 * f * W + 2 * n * w[c]
     ELSE LET q == cnt - (n \div W) * w[c]   \* (avoids products of n)
          IN /\ Abs(q) <= w[c] + f
             /\ Abs(q * W - (n % W) * w[c]) < f * W

\* The position at which, at exact shares, the first component is used up.
ExactLen(w, lens) ==
  LET W == SumW(w)
      q == [c \in DOMAIN w |-> (lens[c] * W) \div w[c]]
  IN CHOOSE m \in {q[c] : c \in DOMAIN q} : \A c \in DOMAIN q : m <= q[c]

(***************************************************************************)
(* The design: component after component takes its ceil-share of what the  *)
(* components before it left.                                              *)
(***************************************************************************)
RECURSIVE Pick(_, _, _, _, _)
Pick(a, b, rem, w, c) ==   \* a, b: positions before and after, among the rest
  LET na == (a * (rem - w[c])) \div rem
      nb == (b * (rem - w[c])) \div rem
  IN IF a - na # b - nb THEN <<c, b - nb - 1>>
     ELSE Pick(na, nb, rem - w[c], w, c + 1)
PickAt(k, w) == Pick(k, k + 1, SumW(w), w, 1)
=============================================================================
