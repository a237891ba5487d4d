--------------------------- MODULE ElementSpecTrace --------------------------
(***************************************************************************)
(* Trace specification of element specs (C29): what get_element_spec says  *)
(* of a pipeline is SpecOf of ElementSpec.tla, was found without running   *)
(* the pipeline, and describes every element that the pipeline yields.     *)
(***************************************************************************)
EXTENDS ElementSpec, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, verdict, tr, said
vars == <<tid, l, verdict, tr, said>>
View == <<tid, l, verdict>>

Init == /\ LET ts == Traces IN \E k \in DOMAIN ts : tid = k /\ tr = ts[k]
        /\ l = 1 /\ verdict = "run" /\ said = Array(<<>>, "")

Verdict(e) ==
  CASE e.e = "spec" ->
         IF e.res = "err" THEN "failed: " \o e.what
         ELSE IF ~Stated(SpecOf(tr.p), e.r) THEN "the element spec is not the one of the transformations"
         ELSE IF e.calls > 0 THEN "the pipeline was run to find out about its elements"
         ELSE "ok"
    [] e.e = "el" -> IF Admits(said, e.x) THEN "ok" ELSE "an element is not as specified"

Step == /\ verdict = "run"
        /\ l <= Len(tr.ev)
        /\ LET e == tr.ev[l]
               v == Verdict(e)
           IN IF v = "ok"
              THEN /\ l' = l + 1 /\ UNCHANGED <<tid, verdict, tr>>
                   /\ said' = IF e.e = "spec" THEN e.r ELSE said
              ELSE /\ verdict' = v
                   /\ PrintT(<<"REJECT", tid, l, v, e.e>>)
                   /\ UNCHANGED <<tid, l, tr, said>>

Done == /\ verdict = "run"
        /\ l > Len(tr.ev)
        /\ verdict' = "accept"
        /\ PrintT(<<"ACCEPT", tid>>)
        /\ UNCHANGED <<tid, l, tr, said>>

Next == Step \/ Done
Spec == Init /\ [][Next]_vars

TypeOK == l \in 1..(Len(tr.ev) + 1)
=============================================================================
