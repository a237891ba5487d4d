--------------------------- MODULE CheckpointGen ---------------------------
(***************************************************************************)
(* Histories of Checkpoint.tla: every step is one operation of the replay. *)
(***************************************************************************)
EXTENDS Checkpoint, Sequences, TLC, Json, IOUtils
D == atoi(IOEnv.DEPTH)
VARIABLES hist
gvars == <<n, pos, disk, writes, loads, want, bad, hist>>
Rec(e) == hist' = Append(hist, e)
Pick(k) == RandomElement(1..k) = 1
GInit == Init /\ hist = <<[op |-> "start", q |-> n]>>
GNext == \/ \E p \in Procs, k \in 1..3 : Read(p) /\ Rec([op |-> "next", p |-> p, k |-> k])
         \/ \E p \in Procs : LoadEnd(p) /\ Rec([op |-> "loadend", p |-> p])
         \/ \E p \in Procs, d \in Dirs : Save(p, d) /\ Rec([op |-> "save", p |-> p, d |-> d])
         \/ \E p \in Procs, d \in Dirs, f \in BOOLEAN : Restore(p, d) /\ Rec([op |-> "restore", p |-> p, d |-> d, fresh |-> f])
         \/ \E p \in Procs, d \in Dirs : Missing(p, d) /\ Pick(3) /\ Rec([op |-> "missing", p |-> p, d |-> d])
         \/ \E p \in Procs, d \in Dirs, f \in BOOLEAN : LoadBegin(p, d) /\ Pick(2) /\ Rec([op |-> "loadbegin", p |-> p, d |-> d, fresh |-> f])
         \/ \E p \in Procs, d \in Dirs, w \in Writes : SaveBegin(p, d, w) /\ Pick(2) /\ Rec([op |-> "savebegin", p |-> p, d |-> d, w |-> w])
         \/ \E w \in Writes : SaveEnd(w) /\ Rec([op |-> "saveend", w |-> w])
         \/ \E q \in 1..MaxProc : Restart(q) /\ Pick(5) /\ Rec([op |-> "start", q |-> q])
GStep == Len(hist) < D /\ GNext
Finish == Len(hist) = D /\ Rec([op |-> "end"]) /\ UNCHANGED vars
GSpec == GInit /\ [][GStep \/ Finish]_gvars
Emit == Len(hist) = D + 1 => PrintT("HIST " \o ToJson(hist))
=============================================================================
