------------------------------- MODULE FileGen ------------------------------
(***************************************************************************)
(* Histories of clients of file readers (C28): files of row groups, reads, *)
(* saves and restores into the same or a fresh reader, possibly through    *)
(* JSON or pickle.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
D == atoi(IOEnv.DEPTH)
VARIABLES files, hist, nsaved
vars == <<files, hist, nsaved>>
Rec(e) == hist' = Append(hist, e) /\ UNCHANGED files
Pick(k) == RandomElement(1..k) = 1
Init == files = <<>> /\ hist = <<>> /\ nsaved = 0
Sizes(j) == IF RandomElement(1..3) = 1 THEN {0} ELSE {0, 1, 2, 3, 5}
NewFile(j) == [i \in 1..RandomElement(0..4) |-> RandomElement(Sizes(i))]
Start == hist = <<>> /\ hist' = <<[op |-> "open"]>> /\ UNCHANGED nsaved
         /\ files' = [j \in 1..<<1, 1, 1, 1, 2, 3, 5, 17>>[RandomElement(1..8)] |-> NewFile(j)]
Step == \/ \E k \in {1, 2, 3} : Rec([op |-> "next"]) /\ UNCHANGED nsaved
        \/ Rec([op |-> "drain", n |-> RandomElement(2..12)]) /\ UNCHANGED nsaved
        \/ nsaved < 6 /\ nsaved' = nsaved + 1 /\ Rec([op |-> "save"])
        \/ \E s \in 1..nsaved : Pick(2) /\ UNCHANGED nsaved
             /\ Rec([op |-> "restore", s |-> s, fresh |-> RandomElement(0..1), via |-> RandomElement({"", "json", "pickle"})])
        \/ Pick(6) /\ Rec([op |-> "open"]) /\ UNCHANGED nsaved
Next == \/ Start
        \/ hist # <<>> /\ Len(hist) < D /\ Step
        \/ Len(hist) = D /\ Rec([op |-> "all"]) /\ UNCHANGED nsaved
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = D + 1 => PrintT("HIST " \o ToJson([files |-> files, ops |-> hist]))
=============================================================================
