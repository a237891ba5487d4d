---------------------------- MODULE TreesDesign ------------------------------
(***************************************************************************)
(* The laws of structures (C27), for all small trees: the canonical order  *)
(* of the leaves depends on the structure only, unflattening inverts       *)
(* flattening, maps keep the structure and pair equal paths.               *)
(***************************************************************************)
EXTENDS Trees

CONSTANTS Keys, Depth, Width

Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN f : i # j => f[i] # f[j]}

Small == {S \in SUBSET Keys : Cardinality(S) <= Width}

RECURSIVE TreesOf(_)
TreesOf(d) ==
  IF d = 0 THEN {Leaf(<<0>>)}
  ELSE LET sub == TreesOf(d - 1)
           tup(n) == [1..n -> sub]
       IN sub \cup UNION {{[t |-> "s", n |-> "list", c |-> c] : c \in tup(n)} : n \in 0..Width}
              \cup UNION {{[t |-> "d", n |-> m, k |-> k, c |-> c] : m \in {"dict", "odict"}, k \in Perms(S), c \in tup(Cardinality(S))}
                          : S \in Small}

VARIABLES t, u
Init == t \in TreesOf(Depth) /\ u \in TreesOf(Depth)
Next == UNCHANGED <<t, u>>
Spec == Init /\ [][Next]_<<t, u>>

Fresh(x) == [i \in 1..NLeaves(x) |-> <<i>>]

LeavesMatchPaths == Len(Flatten(t)) = NLeaves(t) /\ Len(Paths(t)) = NLeaves(t)
Inverts == /\ Unflatten(t, Flatten(t)) = Norm(t)
           /\ Flatten(Unflatten(t, Fresh(t))) = Fresh(t)
SameIsNormalForm == Same(t, u) <=> Norm(Unflatten(t, Fresh(t))) = Norm(Unflatten(u, Fresh(u)))
OrderIndependent == Same(t, u) => Paths(t) = Paths(u)
PathsDetermine == Paths(t) # Paths(u) => ~Same(t, u)
MapKeeps == LET f(x) == x \o <<1>> IN Same(Map(f, t), t) /\ Map(f, t) = Map(f, Norm(t))
UpToSelf == UpTo(t, t) = Norm(t)
==============================================================================
