----------------------------- MODULE CycleWalk -----------------------------
(***************************************************************************)
(* Shuffling indices 0..m with a permutation p of a larger block 0..B-1    *)
(* (a block cipher): apply p until the result falls into 0..m.             *)
(*                                                                         *)
(* Checked for every permutation of blocks of up to MaxB values and every  *)
(* m: the walk ends and is a permutation of 0..m. The block must hold all  *)
(* of 0..m (B > m): a block chosen one bit too small folds the index m     *)
(* onto another one.                                                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANT MaxB
VARIABLES B, m, p, i, x, out, done
vars == <<B, m, p, i, x, out, done>>

Perms(S) == {f \in [S -> S] : \A a, b \in S : a # b => f[a] # f[b]}

Init == /\ B \in 1..MaxB
        /\ m \in 0..(B - 1)
        /\ p \in Perms(0..(B - 1))
        /\ i = 0 /\ x = 0
        /\ out = <<>>
        /\ done = 0
Walk == /\ i <= m
        /\ x' = p[x]
        /\ IF p[x] <= m
           THEN /\ out' = [k \in 0..i |-> IF k = i THEN p[x] ELSE out[k]]
                /\ i' = i + 1 /\ done' = 0
           ELSE /\ done' = done + 1
                /\ UNCHANGED <<out, i>>
        /\ UNCHANGED <<B, m, p>>
\* x starts at the next index after one was placed
Step == IF done = 0 /\ x # i /\ i <= m
        THEN x' = i /\ UNCHANGED <<B, m, p, i, out, done>>
        ELSE Walk
Next == Step
Spec == Init /\ [][Next]_vars

Ends == done < B                     \* the walk stays outside for less than B steps
Injective == \A a, b \in 0..(i - 1) : a # b => out[a] # out[b]
InRange == \A a \in 0..(i - 1) : out[a] \in 0..m
Onto == i = m + 1 => {out[a] : a \in 0..m} = 0..m
=============================================================================
