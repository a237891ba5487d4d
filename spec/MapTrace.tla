------------------------------ MODULE MapTrace ------------------------------
(***************************************************************************)
(* Trace specification of random access: a client reads the length, single *)
(* elements, batches of elements and whole passes of one random-access     *)
(* pipeline, in any order, repeatedly and from several threads. The state  *)
(* of the specification is the pipeline alone: what an access returns is a *)
(* function of the index (Pipe.tla), whatever happened before.             *)
(***************************************************************************)
EXTENDS Pipe, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, verdict, tr
vars == <<tid, l, verdict, tr>>
View == <<tid, l, verdict>>

Init == /\ LET ts == Traces IN \E k \in DOMAIN ts : tid = k /\ tr = ts[k]
        /\ l = 1
        /\ verdict = "run"

Present(xs) == SelectSeq(xs, LAMBDA x : x # None)

Judge(e) ==
  CASE e.e = "len" -> IF e.v = MLen(tr.ast) THEN "ok" ELSE "wrong length"
    [] e.e = "at" -> IF e.v = MAt(tr.ast, e.i) THEN "ok" ELSE "wrong element"
    [] e.e = "items" -> IF e.v = [j \in DOMAIN e.is |-> MAt(tr.ast, e.is[j])] THEN "ok" ELSE "wrong batched elements"
    [] e.e = "pass" -> IF e.v = Present(MSeq(tr.ast)) THEN "ok" ELSE "wrong sequence"
    [] e.e = "passall" -> IF e.v = MSeq(tr.ast) THEN "ok" ELSE "wrong sequence with absent elements"
    [] e.e = "raise" -> "operation failed: " \o e.op

Ev == tr.ev
Step == /\ verdict = "run"
        /\ l <= Len(Ev)
        /\ LET j == Judge(Ev[l]) IN
           IF j = "ok" THEN l' = l + 1 /\ UNCHANGED <<tid, verdict>>
           ELSE /\ verdict' = j
                /\ PrintT(<<"REJECT", tid, l, j, Ev[l].e>>)
                /\ UNCHANGED <<tid, l>>
Done == /\ verdict = "run"
        /\ l = Len(Ev) + 1
        /\ verdict' = "accept"
        /\ PrintT(<<"ACCEPT", tid>>)
        /\ UNCHANGED <<tid, l>>
Next == (Step \/ Done) /\ tr' = tr
Spec == Init /\ [][Next]_vars

\* Accesses never move the specification anywhere but forward in the trace.
TypeOK == l \in 1..(Len(Ev) + 1)
=============================================================================
