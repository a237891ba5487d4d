----------------------------- MODULE ElasticGen -----------------------------
(***************************************************************************)
(* Generator of histories of a job whose number of processes changes:      *)
(* reads of single processes, steps of all processes, checkpoints and      *)
(* restores with any number of processes.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
D == atoi(IOEnv.DEPTH)
NS == 3
VARIABLES P, has, hist
vars == <<P, has, hist>>
Init == P \in 1..4 /\ has = {} /\ hist = <<[op |-> "start", q |-> P]>>
Rec(e) == hist' = Append(hist, e)
Read == /\ \E p \in 0..(P - 1), k \in {1, 1, 2, 3, 8} : Rec([op |-> "read", p |-> p, k |-> k])
        /\ UNCHANGED <<P, has>>
All == /\ \E k \in {1, 2} : Rec([op |-> "all", k |-> k])
       /\ UNCHANGED <<P, has>>
Save == /\ \E s \in 0..(NS - 1) : Rec([op |-> "save", s |-> s]) /\ has' = has \cup {s}
        /\ UNCHANGED P
Restore == /\ \E s \in has, q \in 1..4, h \in 0..3 :
                /\ Rec([op |-> "restore", s |-> s, q |-> q, how |-> h]) /\ P' = q
           /\ UNCHANGED has
Pick(A, n) == RandomElement(1..n) = 1 /\ A
Next == /\ Len(hist) < D
        /\ Read \/ All \/ Save \/ Pick(Restore, 3)
Finish == Len(hist) = D /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<P, has>>
Spec == Init /\ [][Next \/ Finish]_vars
Emit == Len(hist) = D + 1 => PrintT("HIST " \o ToJson(hist))
=============================================================================
