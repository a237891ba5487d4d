------------------------------ MODULE FileReader ----------------------------
(***************************************************************************)
(* A reader of a file of row groups, some of which may be empty, with one  *)
(* group in memory at a time (C28). Its position is saved and restored.    *)
(* `pos` is the number of records before the position: what the state      *)
(* stands for.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxGroups, MaxLen, MaxSaves

VARIABLES groups, rg, idx, table, pos, saved, res, busy
vars == <<groups, rg, idx, table, pos, saved, res, busy>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Before(g) == Sum(SubSeq(groups, 1, g))
Total == Sum(groups)
\* Group g (from 0) as it is loaded; there may be no group at all.
Load(g) == IF groups = <<>> THEN [g |-> 0, n |-> 0] ELSE [g |-> g, n |-> groups[g + 1]]

Init == /\ groups \in UNION {[1..n -> 0..MaxLen] : n \in 0..MaxGroups}
        /\ rg = 0 /\ idx = 0 /\ table = Load(0) /\ pos = 0 /\ saved = {} /\ res = [r |-> "none"] /\ busy = FALSE

Here == idx < table.n
\* A read is called, passes empty groups and returns a record or ends.
Call == ~busy /\ busy' = TRUE /\ UNCHANGED <<groups, rg, idx, table, pos, saved, res>>
Read == /\ busy /\ Here
        /\ res' = [r |-> "record", at |-> Before(table.g) + idx, pos |-> pos]
        /\ idx' = idx + 1 /\ pos' = pos + 1 /\ busy' = FALSE
        /\ UNCHANGED <<groups, rg, table, saved>>
Advance == /\ busy /\ ~Here /\ rg < Len(groups) - 1
           /\ rg' = rg + 1 /\ idx' = 0 /\ table' = Load(rg + 1)
           /\ UNCHANGED <<groups, pos, saved, res, busy>>
End == /\ busy /\ ~Here /\ rg >= Len(groups) - 1
       /\ res' = [r |-> "end", pos |-> pos] /\ busy' = FALSE
       /\ UNCHANGED <<groups, rg, idx, table, pos, saved>>
Save == /\ ~busy /\ Cardinality(saved) < MaxSaves
        /\ saved' = saved \union {[rg |-> rg, idx |-> idx, pos |-> pos]}
        /\ UNCHANGED <<groups, rg, idx, table, pos, res, busy>>
Restore == /\ ~busy
           /\ \E s \in saved : rg' = s.rg /\ idx' = s.idx /\ table' = Load(s.rg) /\ pos' = s.pos
           /\ UNCHANGED <<groups, saved, res, busy>>
Next == Call \/ Read \/ Advance \/ End \/ Save \/ Restore
Spec == Init /\ [][Next]_vars /\ WF_vars(Read \/ Advance \/ End)

InOrder == res.r = "record" => res.at = res.pos
EndsLast == res.r = "end" => res.pos = Total
Position == pos = Before(rg) + idx
TableOfGroup == table = Load(rg)
\* Runs of empty groups end.
Answers == busy ~> ~busy
=============================================================================
