-------------------------- MODULE CheckpointTrace --------------------------
(***************************************************************************)
(* Trace specification of jobs that save into and restore from checkpoint  *)
(* directories (C24): the state machine of Checkpoint.tla, where the       *)
(* position of a process is known from the elements that it reads. The     *)
(* elements of every process are a denotation (Pipe.tla, Loader.tla) or a  *)
(* recorded uninterrupted iteration; no two processes have the same.       *)
(***************************************************************************)
EXTENDS Pipe, Loader, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Has(r, f) == f \in DOMAIN r
StreamOf(t) == IF Has(t, "ref") THEN t.ref ELSE IF Has(t, "loader") THEN LSeq(t.loader) ELSE ISeq(t.ast)
Procs == 0..2
Dirs == 0..2
Writes == 0..3
None0 == -1

VARIABLES tid, l, q, pos, disk, writes, loads, verdict, tr
vars == <<tid, l, q, pos, disk, writes, loads, verdict, tr>>
View == <<tid, l, q, pos, disk, writes, loads, verdict>>

\* streams[c][p + 1]: the elements of process p of c
Init == /\ LET ts == Traces IN \E i \in DOMAIN ts :
             /\ tid = i
             /\ tr = [ev |-> ts[i].ev, streams |-> [c \in DOMAIN ts[i].streams |->
                        [p \in DOMAIN ts[i].streams[c] |-> StreamOf(ts[i].streams[c][p])]]]
        /\ l = 1 /\ q = 0
        /\ pos = [p \in Procs |-> 0]
        /\ disk = [d \in Dirs |-> [f \in Procs \X (1..3) |-> None0]]
        /\ writes = [w \in Writes |-> [used |-> FALSE]]
        /\ loads = [p \in Procs |-> None0]
        /\ verdict = "run"
Ev == tr.ev
Ref(p) == tr.streams[q][p + 1]

Judge(e) ==
  CASE e.e = "start" -> "ok"
    [] e.e = "fresh" -> "ok"
    [] e.e = "next" -> IF pos[e.p] >= Len(Ref(e.p)) THEN "element past the end"
                       ELSE IF Ref(e.p)[pos[e.p] + 1] # e.v THEN "wrong element" ELSE "ok"
    [] e.e = "stop" -> IF pos[e.p] # Len(Ref(e.p)) THEN "end of data too early" ELSE "ok"
    [] e.e = "save" -> "ok"
    [] e.e = "savebegin" -> "ok"
    [] e.e = "saveend" -> IF writes[e.w].used THEN "ok" ELSE "harness: unknown write"
    [] e.e = "restore" -> IF disk[e.d][<<e.p, q>>] = None0 THEN "a checkpoint was restored that this process never saved" ELSE "ok"
    [] e.e = "missing" -> IF disk[e.d][<<e.p, q>>] # None0 THEN "the saved checkpoint is not found" ELSE "ok"
    [] e.e = "loadbegin" -> "ok"
    [] e.e = "loadend" -> IF disk[loads[e.p]][<<e.p, q>>] = None0 THEN "a checkpoint was restored that this process never saved" ELSE "ok"
    [] e.e = "raise" -> "operation failed: " \o e.op

Effect(e) ==
  CASE e.e = "start" -> /\ q' = e.q /\ pos' = [p \in Procs |-> 0]
                        /\ writes' = [w \in Writes |-> [used |-> FALSE]] /\ loads' = [p \in Procs |-> None0]
                        /\ UNCHANGED disk
    [] e.e = "fresh" -> pos' = [pos EXCEPT ![e.p] = 0] /\ UNCHANGED <<q, disk, writes, loads>>
    [] e.e = "next" -> pos' = [pos EXCEPT ![e.p] = @ + 1] /\ UNCHANGED <<q, disk, writes, loads>>
    [] e.e = "save" -> disk' = [disk EXCEPT ![e.d][<<e.p, q>>] = pos[e.p]] /\ UNCHANGED <<q, pos, writes, loads>>
    [] e.e = "savebegin" -> /\ writes' = [writes EXCEPT ![e.w] = [used |-> TRUE, p |-> e.p, d |-> e.d, at |-> pos[e.p]]]
                            /\ UNCHANGED <<q, pos, disk, loads>>
    [] e.e = "saveend" -> /\ disk' = [disk EXCEPT ![writes[e.w].d][<<writes[e.w].p, q>>] = writes[e.w].at]
                          /\ writes' = [writes EXCEPT ![e.w] = [used |-> FALSE]]
                          /\ UNCHANGED <<q, pos, loads>>
    [] e.e = "restore" -> pos' = [pos EXCEPT ![e.p] = disk[e.d][<<e.p, q>>]] /\ UNCHANGED <<q, disk, writes, loads>>
    [] e.e = "loadbegin" -> loads' = [loads EXCEPT ![e.p] = e.d] /\ UNCHANGED <<q, pos, disk, writes>>
    [] e.e = "loadend" -> /\ pos' = [pos EXCEPT ![e.p] = disk[loads[e.p]][<<e.p, q>>]]
                          /\ loads' = [loads EXCEPT ![e.p] = None0]
                          /\ UNCHANGED <<q, disk, writes>>
    [] OTHER -> UNCHANGED <<q, pos, disk, writes, loads>>

Step == /\ verdict = "run"
        /\ l <= Len(Ev)
        /\ LET e == Ev[l]
               j == Judge(e)
           IN IF j = "ok"
              THEN Effect(e) /\ l' = l + 1 /\ UNCHANGED <<tid, verdict>>
              ELSE /\ verdict' = j
                   /\ PrintT(<<"REJECT", tid, l, j, e.e>>)
                   /\ UNCHANGED <<tid, l, q, pos, disk, writes, loads>>
Done == /\ verdict = "run"
        /\ l = Len(Ev) + 1
        /\ verdict' = "accept"
        /\ PrintT(<<"ACCEPT", tid>>)
        /\ UNCHANGED <<tid, l, q, pos, disk, writes, loads>>
Next == (Step \/ Done) /\ tr' = tr
Spec == Init /\ [][Next]_vars
TypeOK == \A p \in Procs : pos[p] \in Nat
=============================================================================
