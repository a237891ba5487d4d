----------------------------- MODULE TreesTrace ------------------------------
(***************************************************************************)
(* Trace specification of structures of features (C27): the functions of   *)
(* tree_lib and pipelines over structured elements, with and without JAX,  *)
(* give the results of Trees.tla.                                          *)
(***************************************************************************)
EXTENDS Trees, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, verdict, tr
vars == <<tid, l, verdict, tr>>
View == <<tid, l, verdict>>

Init == /\ LET ts == Traces IN \E k \in DOMAIN ts : tid = k /\ tr = ts[k]
        /\ l = 1
        /\ verdict = "run"

Eq(a, b) == Norm(a) = Norm(b)
EqAll(as, bs) == Len(as) = Len(bs) /\ \A i \in DOMAIN as : Eq(as[i], bs[i])

\* All elements have the structure of the first one.
Alike(ts) == \A i \in DOMAIN ts : Same(ts[1], ts[i])

\* The result of a function, and whether it has one.
HasResult(e) ==
  CASE e.e \in {"map2", "same"} -> Same(e.t, e.u)
    [] e.e \in {"batch", "mbatch", "rebatch", "pad", "loader"} -> Alike(e.els)
    [] e.e = "ragged" -> FALSE   \* features with different numbers of rows
    [] OTHER -> TRUE

Pairs(t, u) == Concat(<<t, u>>)
WithPath(t) == LET ps == Paths(t) IN LET xs == Flatten(t) IN
               Unflatten(t, [i \in DOMAIN xs |-> ps[i] \o xs[i]])

Right(e) ==
  CASE e.e = "flatten" -> e.r = Flatten(e.t)
    [] e.e = "paths" -> e.r = Paths(e.t) /\ e.x = Flatten(e.t)
    [] e.e = "unflatten" -> Eq(e.r, Unflatten(e.t, e.x))
    [] e.e = "map" -> LET f(x) == <<x[1], x[1] + 1>> IN Eq(e.r, Map(f, e.t))
    [] e.e = "map2" -> Eq(e.r, Pairs(e.t, e.u))
    [] e.e = "mapp" -> Eq(e.r, WithPath(e.t))
    [] e.e = "same" -> TRUE
    [] e.e = "upto" -> Eq(e.r, UpTo(e.t, e.u))
    [] e.e \in {"batch", "mbatch", "loader"} -> EqAll(e.r, Batches(e.els, e.b, e.drop = 1))
    [] e.e = "rebatch" -> EqAll(e.r, Rebatched(e.els, 1, e.b, e.drop = 1))
    [] e.e = "pad" -> EqAll(e.r, Padded(e.els, e.w, e.b))
    [] e.e = "pack" -> Consistent(e.r, e.m) /\ Bag(Tokens(e.r)) = Bag(e.toks)

Verdict(e) ==
  IF e.res = "err" THEN (IF HasResult(e) THEN "failed: " \o e.what ELSE "ok")
  ELSE IF ~HasResult(e) THEN "structures that do not match were accepted"
  ELSE IF Right(e) THEN "ok"
  ELSE "features were mixed up, lost or reordered"

Step == /\ verdict = "run"
        /\ l <= Len(tr.ev)
        /\ LET e == tr.ev[l]
               v == Verdict(e)
           IN IF v = "ok"
              THEN l' = l + 1 /\ UNCHANGED <<tid, verdict, tr>>
              ELSE /\ verdict' = v
                   /\ PrintT(<<"REJECT", tid, l, v, e.e>>)
                   /\ UNCHANGED <<tid, l, tr>>

Done == /\ verdict = "run"
        /\ l > Len(tr.ev)
        /\ verdict' = "accept"
        /\ PrintT(<<"ACCEPT", tid>>)
        /\ UNCHANGED <<tid, l, tr>>

Next == Step \/ Done
Spec == Init /\ [][Next]_vars

TypeOK == l \in 1..(Len(tr.ev) + 1)
=============================================================================
