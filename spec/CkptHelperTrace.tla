--------------------------- MODULE CkptHelperTrace ---------------------------
(***************************************************************************)
(* Trace specification of assert_equal_output_after_checkpoint (C30): it   *)
(* passes exactly the datasets of CkptHelper.tla, fails others with an     *)
(* assertion, and leaves them as they were.                                *)
(***************************************************************************)
EXTENDS CkptHelper, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, verdict, tr
vars == <<tid, l, verdict, tr>>
View == <<tid, l, verdict>>

Init == /\ LET ts == Traces IN \E k \in DOMAIN ts : tid = k /\ tr = ts[k]
        /\ l = 1 /\ verdict = "run"

Verdict(e) ==
  CASE e.e = "helper" ->
         IF e.res = "other" THEN "fails in another way: " \o e.what
         ELSE IF Passes(tr.d) /\ e.res # "pass" THEN "a dataset that resumes exactly is refused"
         ELSE IF ~Passes(tr.d) /\ e.res = "pass" THEN "a dataset that does not resume exactly is accepted"
         ELSE "ok"
    [] e.e = "raise" -> "unexpected " \o e.op
    [] OTHER -> "unknown event"

Step == /\ verdict = "run"
        /\ l <= Len(tr.ev)
        /\ LET e == tr.ev[l]
               v == Verdict(e)
           IN IF v = "ok"
              THEN l' = l + 1 /\ UNCHANGED <<tid, verdict, tr>>
              ELSE /\ verdict' = v
                   /\ PrintT(<<"REJECT", tid, l, v, e.e>>)
                   /\ UNCHANGED <<tid, l, tr>>

Done == /\ verdict = "run"
        /\ l > Len(tr.ev)
        /\ verdict' = "accept"
        /\ PrintT(<<"ACCEPT", tid>>)
        /\ UNCHANGED <<tid, l, tr>>

Next == Step \/ Done
Spec == Init /\ [][Next]_vars

TypeOK == l \in 1..(Len(tr.ev) + 1)
=============================================================================
