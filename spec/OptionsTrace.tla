---------------------------- MODULE OptionsTrace ----------------------------
(***************************************************************************)
(* Trace specification of options and filter limits (C31).  The tree of    *)
(* the pipeline says what its options are and so what every iterator of it  *)
(* yields and with which window it fails.                                  *)
(***************************************************************************)
EXTENDS Options, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Window == 1000

VARIABLES tid, l, verdict, tr, its
vars == <<tid, l, verdict, tr, its>>
View == <<tid, l, verdict>>

Nothing == [limit |-> Unset, warn |-> Unset]
Own(t) == [limit |-> t.limit, warn |-> t.warn]

\* the options of the part of the pipeline below t; what is interleaved is a pipeline of its own
RECURSIVE Below(_)
Below(t) ==
  CASE t.op = "opt" -> Over(Own(t), Below(t.cs[1]))
    [] t.op = "zip" -> Over(Below(t.cs[1]), Below(t.cs[2]))
    [] t.op \in {"range", "cat"} -> Nothing
    [] OTHER -> Below(t.cs[1])

Keep(k, v) == IF (v \div k.ph) % 2 = 0 THEN v % k.b < k.c ELSE v % k.bb < k.cc

RECURSIVE Stream(_, _, _), Chain(_, _, _)
\* o: the options in force; from: where the source starts
Stream(t, o, from) ==
  CASE t.op = "range" ->
         LET vals == TLCEval([i \in 1..((t.n - from) * t.reps) |-> (from + i - 1) % t.n])
         IN Filtered(vals, Ends, TLCEval([i \in DOMAIN vals |-> Keep(t.keep, vals[i])]), Window, o.limit)
    [] t.op = "filter" ->
         LET s == TLCEval(Stream(t.cs[1], o, from))
         IN Filtered(s.v, s.end, TLCEval([i \in DOMAIN s.v |-> Keep(t.keep, s.v[i])]), Window, o.limit)
    [] t.op = "zip" ->
         LET a == TLCEval(Stream(t.cs[1], o, 0))
             b == TLCEval(Stream(t.cs[2], o, 0))
         IN IF Len(a.v) <= Len(b.v) THEN a
            ELSE [v |-> SubSeq(a.v, 1, Len(b.v)), end |-> b.end]
    [] t.op = "cat" -> Chain(t.cs, o, 1)
    [] OTHER -> Stream(t.cs[1], o, from)
Chain(ts, o, k) ==
  IF k > Len(ts) THEN [v |-> <<>>, end |-> Ends]
  ELSE LET a == TLCEval(Stream(ts[k], Over(o, Below(ts[k])), 0))
       IN IF a.end # Ends THEN a
          ELSE LET b == TLCEval(Chain(ts, o, k + 1)) IN [v |-> a.v \o b.v, end |-> b.end]

Init == /\ LET ts == Traces IN \E k \in DOMAIN ts : tid = k /\ tr = ts[k]
        /\ l = 1 /\ verdict = "run" /\ its = <<>>

Whole(from) == TLCEval(Stream(tr.tree, Below(tr.tree), from))
At(it) == IF it.pos = 0 THEN it.from ELSE it.s.v[it.pos] + 1

After(e) ==
  CASE e.e = "new" -> Append(its, [s |-> Whole(0), pos |-> 0, from |-> 0])
    [] e.e = "restored" -> LET f == At(its[e.of]) IN Append(its, [s |-> Whole(f), pos |-> 0, from |-> f])
    [] e.e = "read" -> [its EXCEPT ![e.it].pos = @ + Len(e.vals)]
    [] OTHER -> its

Verdict(e) ==
  CASE e.e \in {"new", "restored"} -> "ok"
    [] e.e = "read" ->
         LET it == its[e.it]
             n == Len(it.s.v) - it.pos
             m == IF n < e.n THEN n ELSE e.n
         IN IF e.vals # SubSeq(it.s.v, it.pos + 1, it.pos + m)
            THEN IF Len(e.vals) < m
                 THEN IF e.end = "over" THEN "fails although no filter skipped too many"
                      ELSE "ends early"
                 ELSE IF Len(e.vals) > m THEN "goes on although a filter skipped too many or the input is over"
                 ELSE "yields other elements"
            ELSE IF m = e.n THEN "ok"
            ELSE IF it.s.end = Ends THEN (IF e.end = "end" THEN "ok" ELSE "fails although no filter skipped too many")
            ELSE IF e.end # "over" THEN "does not fail although a filter skipped too many"
            ELSE IF e.skipped >= 0 /\ e.skipped # it.s.end THEN "fails with the wrong window"
            ELSE "ok"
    [] e.e = "raise" -> "unexpected " \o e.op
    [] OTHER -> "unknown event"

Step == /\ verdict = "run"
        /\ l <= Len(tr.ev)
        /\ LET e == tr.ev[l]
               v == Verdict(e)
           IN IF v = "ok"
              THEN l' = l + 1 /\ its' = After(e) /\ UNCHANGED <<tid, verdict, tr>>
              ELSE /\ verdict' = v
                   /\ PrintT(<<"REJECT", tid, l, v, e.e>>)
                   /\ UNCHANGED <<tid, l, tr, its>>

Done == /\ verdict = "run"
        /\ l > Len(tr.ev)
        /\ verdict' = "accept"
        /\ PrintT(<<"ACCEPT", tid>>)
        /\ UNCHANGED <<tid, l, tr, its>>

Next == Step \/ Done
Spec == Init /\ [][Next]_vars

TypeOK == l \in 1..(Len(tr.ev) + 1)
=============================================================================
