----------------------------- MODULE IterTrace -----------------------------
(***************************************************************************)
(* Trace specification: a client uses several iterators of one pipeline    *)
(* (identified by small integers) and several saved states (snapshots).    *)
(* The specification is the state machine of the iterator API:             *)
(*                                                                         *)
(*   pos[i]   how many elements iterator i has handed out (its position    *)
(*            in the reference sequence),                                  *)
(*   open[i]  whether it has been closed,                                  *)
(*   snap[s]  the position that snapshot s describes.                      *)
(*                                                                         *)
(* The reference sequence is the denotation ISeq of the pipeline (Pipe.tla)*)
(* or, where a trace gives "ref", the recorded uninterrupted iteration.    *)
(*                                                                         *)
(* TLC reads many traces from one file; every trace is one initial state.  *)
(* A trace step that the state machine does not allow is not an error of   *)
(* the model checker: it ends the trace with the name of the violated      *)
(* clause, printed as a line  <<"REJECT", trace, event, clause>>.          *)
(***************************************************************************)
EXTENDS Pipe, Loader, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

Has(r, f) == f \in DOMAIN r
RefOf(t) == IF Has(t, "ref") THEN t.ref ELSE IF Has(t, "loader") THEN LSeq(t.loader) ELSE ISeq(t.ast)

Its == 0..7
Snaps == 0..15

\* tr is the trace being validated (its events and its reference sequence); it
\* never changes and takes no part in the identity of a state (VIEW).
\* mode = 1 while the cause of failures is present: the reference is then the
\* denotation "bad" of the failing pipeline instead of the healthy one.
VARIABLES tid, l, pos, st, snap, verdict, mode, tr
vars == <<tid, l, pos, st, snap, verdict, mode, tr>>
View == <<tid, l, pos, st, snap, verdict, mode>>

Init == /\ LET ts == Traces IN \E k \in DOMAIN ts :
             tid = k /\ tr = [ev |-> ts[k].ev, ref |-> RefOf(ts[k]),
                             bad |-> IF Has(ts[k], "bad") THEN ISeq(ts[k].bad) ELSE <<>>,
                             seek |-> Has(ts[k], "ast") /\ CanSeek(ts[k].ast)]
             /\ mode = IF Has(ts[k], "bad") THEN 1 ELSE 0
        /\ l = 1
        /\ pos = [i \in Its |-> 0]
        /\ st = [i \in Its |-> "none"]
        /\ snap = [s \in Snaps |-> -1]
        /\ verdict = "run"

Ev == tr.ev
Ref == IF mode = 1 THEN tr.bad ELSE tr.ref

(***************************************************************************)
(* Guards: the clause violated by event e, or "ok".                        *)
(***************************************************************************)
Judge(e) ==
  CASE e.e = "new" -> "ok"
    [] e.e = "next" ->
         IF st[e.i] = "failed" THEN "harness: read after a failure"
         ELSE IF st[e.i] # "open" THEN "element after close"
         ELSE IF pos[e.i] >= Len(Ref) THEN "element past the end"
         ELSE IF IsErr(Ref[pos[e.i] + 1]) THEN "element in place of a failure"
         ELSE IF Ref[pos[e.i] + 1] # e.v THEN "wrong element"
         ELSE "ok"
    [] e.e = "stop" ->
         IF st[e.i] # "open" THEN "end of data instead of ValueError after close"
         ELSE IF pos[e.i] # Len(Ref) THEN "end of data too early"
         ELSE "ok"
    [] e.e = "err" ->   \* next raised something
         IF st[e.i] = "closed" THEN (IF e.t = "ValueError" THEN "ok" ELSE "wrong error after close")
         ELSE IF pos[e.i] >= Len(Ref) THEN "failure instead of end of data"
         ELSE IF ~IsErr(Ref[pos[e.i] + 1]) THEN "unexpected failure"
         ELSE IF Ref[pos[e.i] + 1] # e.v THEN "wrong failure"
         ELSE "ok"
    [] e.e = "get" -> IF st[e.i] = "failed" THEN "harness: save after a failure" ELSE "ok"
    [] e.e = "set" -> IF snap[e.s] < 0 THEN "harness: unknown snapshot" ELSE "ok"
    [] e.e = "seterr" ->  \* restoring may have to read again, and then meets the failure: also one
                          \* of an input of which a mixture would not have read as much
         IF snap[e.s] < 0 THEN "harness: unknown snapshot"
         ELSE IF mode = 1 THEN "ok" ELSE "restoring failed"
    [] e.e = "copy" -> "ok"
    [] e.e = "same" -> IF e.v = 1 THEN "ok" ELSE "a saved state changed"
    [] e.e = "close" -> "ok"
    [] e.e = "raise" -> "operation failed: " \o e.op
    [] e.e = "seek" -> "ok"
    [] e.e = "refused" -> IF tr.seek THEN "seeking is not possible" ELSE "ok"
    [] e.e = "heal" -> "ok"
    [] e.e = "index" -> IF e.v = pos[e.i] THEN "ok" ELSE "wrong next index"
    [] e.e = "atmost" -> IF e.v <= e.max THEN "ok" ELSE "bound exceeded: " \o e.what
    [] e.e = "count" -> IF e.v = e.n THEN "ok" ELSE "wrong count: " \o e.what
    [] e.e = "ahead" -> \* the elements read from the input so far
         IF e.v <= pos[e.i] + e.max THEN "ok" ELSE "read too far ahead"
    [] e.e = "table" -> IF e.kind = "custom" THEN (IF e.table = e.keys THEN "ok" ELSE "harness: custom sampler") ELSE TableVerdict(e)
    [] e.e = "cover" -> CoverVerdict(e)
    [] e.e = "truth" -> IF e.v = 1 THEN "ok" ELSE e.what
    [] e.e = "fresh" -> IF e.v = Ref THEN "ok" ELSE "wrong elements: " \o e.what

Effect(e) ==
  /\ pos' = CASE e.e \in {"next"} -> [pos EXCEPT ![e.i] = @ + 1]
              [] e.e = "new" -> [pos EXCEPT ![e.i] = 0]
              [] e.e = "set" -> [pos EXCEPT ![e.i] = snap[e.s]]
              [] e.e = "seek" -> [pos EXCEPT ![e.i] = e.v]
              [] e.e = "err" /\ Has(e, "skip") -> [pos EXCEPT ![e.i] = @ + e.skip]
              [] OTHER -> pos
  /\ st' = CASE e.e = "new" -> [st EXCEPT ![e.i] = "open"]
             [] e.e = "close" -> [st EXCEPT ![e.i] = "closed"]
             [] e.e \in {"set", "seek"} /\ st[e.i] = "failed" -> [st EXCEPT ![e.i] = "open"]
             [] e.e \in {"err", "refused", "seterr"} /\ st[e.i] = "open" -> [st EXCEPT ![e.i] = "failed"]
             [] OTHER -> st
  /\ snap' = CASE e.e = "get" -> [snap EXCEPT ![e.s] = pos[e.i]]
               [] e.e = "copy" -> [snap EXCEPT ![e.s] = snap[e.f]]
               [] OTHER -> snap
  /\ mode' = IF e.e = "heal" THEN 0 ELSE mode

Step == /\ verdict = "run"
        /\ l <= Len(Ev)
        /\ LET e == Ev[l]
               j == Judge(e)
           IN IF j = "ok"
              THEN Effect(e) /\ l' = l + 1 /\ UNCHANGED <<tid, verdict>>
              ELSE /\ verdict' = j
                   /\ PrintT(<<"REJECT", tid, l, j, IF e.e \in {"next", "stop", "err"} THEN pos[e.i] ELSE -1>>)
                   /\ UNCHANGED <<tid, l, pos, st, snap, mode>>
Done == /\ verdict = "run"
        /\ l = Len(Ev) + 1
        /\ verdict' = "accept"
        /\ PrintT(<<"ACCEPT", tid>>)
        /\ UNCHANGED <<tid, l, pos, st, snap, mode>>
Next == (Step \/ Done) /\ tr' = tr
Spec == Init /\ [][Next]_vars

\* The state machine itself keeps its variables sane on every trace.
TypeOK == /\ \A i \in Its : pos[i] \in 0..Len(tr.ref)
          /\ \A s \in Snaps : snap[s] \in -1..Len(tr.ref)
=============================================================================
