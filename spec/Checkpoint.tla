----------------------------- MODULE Checkpoint -----------------------------
(***************************************************************************)
(* Checkpoint directories (C24). A job of n processes has one iterator per *)
(* process. A save writes the file of the process (named by its index and  *)
(* the number of processes) into a directory; with the asynchronous API    *)
(* the file is written some time after save was called, while the iterator *)
(* goes on. Restoring reads the file of the process. The job can end at    *)
(* any time (writes that are not done are lost) and start again with       *)
(* another number of processes.                                            *)
(*                                                                         *)
(* Early = TRUE: the state is taken when save is called (the design of the *)
(* code). With Early = FALSE the state is taken when the file is written,  *)
(* and TLC shows how a checkpoint is then altered by later reads.          *)
(* Own = TRUE: the file name holds both the index and the count.           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS MaxProc, MaxPos, NDir, NWrite, Early, Own

Dirs == 0..(NDir - 1)
Writes == 0..(NWrite - 1)
Procs == 0..(MaxProc - 1)
Files == {<<p, q>> \in Procs \X (1..MaxProc) : p < q}
Name(p, q) == IF Own THEN <<p, q>> ELSE <<0, q>>
Free == [used |-> FALSE]

\* want: the position of the process of the file when the save was called whose
\* file was written last
VARIABLES n, pos, disk, writes, loads, want, bad
vars == <<n, pos, disk, writes, loads, want, bad>>

Init == /\ n \in 1..MaxProc
        /\ pos = [p \in Procs |-> 0]
        /\ disk = [d \in Dirs |-> [f \in Files |-> -1]]
        /\ want = disk
        /\ writes = [w \in Writes |-> Free]
        /\ loads = [p \in Procs |-> -1]
        /\ bad = FALSE

Live(p) == p < n /\ loads[p] = -1
Read(p) == /\ Live(p) /\ pos[p] < MaxPos
           /\ pos' = [pos EXCEPT ![p] = @ + 1]
           /\ UNCHANGED <<n, disk, writes, loads, want, bad>>
Put(p, d, was, s) == /\ disk' = [disk EXCEPT ![d][Name(p, n)] = s]
                     /\ want' = [want EXCEPT ![d][<<p, n>>] = was]
\* the file that p will read is not being replaced
Quiet(p, d) == loads[p] # d
Save(p, d) == /\ Live(p)
              /\ Put(p, d, pos[p], pos[p])
              /\ UNCHANGED <<n, pos, writes, loads, bad>>
SaveBegin(p, d, w) == /\ Live(p) /\ ~writes[w].used
                      /\ writes' = [writes EXCEPT ![w] = [used |-> TRUE, p |-> p, d |-> d, at |-> pos[p]]]
                      /\ UNCHANGED <<n, pos, disk, loads, want, bad>>
SaveEnd(w) == /\ writes[w].used
              /\ Quiet(writes[w].p, writes[w].d)
              /\ Put(writes[w].p, writes[w].d, writes[w].at, IF Early THEN writes[w].at ELSE pos[writes[w].p])
              /\ writes' = [writes EXCEPT ![w] = Free]
              /\ UNCHANGED <<n, pos, loads, bad>>
Got(p, d) == /\ pos' = [pos EXCEPT ![p] = disk[d][Name(p, n)]]
             /\ bad' = (bad \/ disk[d][Name(p, n)] # want[d][<<p, n>>])
Restore(p, d) == /\ Live(p) /\ disk[d][Name(p, n)] # -1
                 /\ Got(p, d)
                 /\ UNCHANGED <<n, disk, writes, loads, want>>
Missing(p, d) == Live(p) /\ disk[d][Name(p, n)] = -1 /\ UNCHANGED vars
LoadBegin(p, d) == /\ Live(p) /\ disk[d][Name(p, n)] # -1
                   /\ loads' = [loads EXCEPT ![p] = d]
                   /\ UNCHANGED <<n, pos, disk, writes, want, bad>>
LoadEnd(p) == /\ p < n /\ loads[p] # -1
              /\ Got(p, loads[p])
              /\ loads' = [loads EXCEPT ![p] = -1]
              /\ UNCHANGED <<n, disk, writes, want>>
\* The job ends and starts again.
Restart(q) == /\ n' = q
              /\ pos' = [p \in Procs |-> 0]
              /\ writes' = [w \in Writes |-> Free]
              /\ loads' = [p \in Procs |-> -1]
              /\ UNCHANGED <<disk, want, bad>>

Next == \/ \E p \in Procs : Read(p) \/ LoadEnd(p)
        \/ \E p \in Procs, d \in Dirs : Save(p, d) \/ Restore(p, d) \/ Missing(p, d) \/ LoadBegin(p, d)
        \/ \E p \in Procs, d \in Dirs, w \in Writes : SaveBegin(p, d, w)
        \/ \E w \in Writes : SaveEnd(w)
        \/ \E q \in 1..MaxProc : Restart(q)
Spec == Init /\ [][Next]_vars

TypeOK == /\ n \in 1..MaxProc
          /\ \A p \in Procs : pos[p] \in 0..MaxPos /\ loads[p] \in Dirs \cup {-1}
          /\ \A d \in Dirs, f \in Files : disk[d][f] \in -1..MaxPos
\* A file holds the position at the time its save was called.
Faithful == \A d \in Dirs, f \in Files : want[d][f] # -1 => disk[d][Name(f[1], f[2])] = want[d][f]
\* Whatever was restored was saved by the same process of the same number.
Restored == ~bad
=============================================================================
