----------------------------- MODULE ElasticMap -----------------------------
(***************************************************************************)
(* Design model of re-sharding a random-access dataset (C17): a global     *)
(* batch is B consecutive elements, of which process p of P gets the       *)
(* elements p, p + P, ... All that is saved is the index g of the next     *)
(* global batch, once all processes have read it; restoring may change the *)
(* number of processes and the batch size.                                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS MaxN, MaxB, MaxP, MaxReshard, Together

VARIABLES n, B, P, g, k, read, ended, resh
vars == <<n, B, P, g, k, read, ended, resh>>
Fits(b, p) == b % p = 0
HB == B \div P
\* Full batches of process p after index g: of its own elements, or of the
\* global batches that all processes can complete.
Own(p) == LET e == n - g - p IN IF e <= 0 THEN 0 ELSE ((e + P - 1) \div P) \div HB
Steps(p) == IF Together THEN (IF n <= g THEN 0 ELSE (n - g) \div B) ELSE Own(p)
Batch(p, j) == {g + p + P * (j * HB + i) : i \in 0..(HB - 1)}

Init == /\ n \in 0..MaxN /\ B \in 1..MaxB /\ P \in 1..MaxP /\ Fits(B, P)
        /\ g = 0 /\ k = [p \in 0..(P - 1) |-> 0] /\ read = {} /\ ended = {} /\ resh = 0
Read(p) == /\ p \notin ended
           /\ IF k[p] < Steps(p)
              THEN /\ read' = read \cup {<<e, 0>> : e \in Batch(p, k[p])} \cup {<<e, 1>> : e \in {x \in Batch(p, k[p]) : <<x, 0>> \in read}}
                   /\ k' = [k EXCEPT ![p] = @ + 1]
                   /\ UNCHANGED ended
              ELSE ended' = ended \cup {p} /\ UNCHANGED <<read, k>>
           /\ UNCHANGED <<n, B, P, g, resh>>
Aligned == \A p \in DOMAIN k : k[p] = k[0]
Reshard == /\ Aligned /\ resh < MaxReshard
           /\ \E b \in 1..MaxB, q \in 1..MaxP :
                /\ Fits(b, q) /\ B' = b /\ P' = q
                /\ g' = g + k[0] * B
                /\ k' = [p \in 0..(q - 1) |-> 0]
           /\ ended' = {} /\ resh' = resh + 1 /\ UNCHANGED <<n, read>>
Next == (\E p \in DOMAIN k : Read(p)) \/ Reshard
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Elements == {e[1] : e \in read}
ExactlyOnce == \A e \in read : e[2] = 0 /\ e[1] < n
\* Whenever all processes are at the same step, what was read is a prefix, in
\* whole global batches.
Prefix == Aligned => Elements = 0..(g + k[0] * B - 1)
\* All processes end at the same step, and less than a global batch is left.
SameEnd == ended = DOMAIN k => (Aligned /\ n - (g + k[0] * B) < B)
=============================================================================
