----------------------------- MODULE QueueTrace -----------------------------
(***************************************************************************)
(* Trace specification of resizable queues (C23): is a concurrent history  *)
(* of calls (inv) and returns (res) linearizable with respect to a bounded *)
(* FIFO queue whose capacity changes?                                      *)
(*                                                                         *)
(* The state is the set of all configurations that explain the events so   *)
(* far: the stored items, the capacity, the places of items taken by gets  *)
(* that have not returned (processes only: a get frees its place later),   *)
(* and for every call in progress what it is going to return. The history  *)
(* is rejected where no configuration is left.                             *)
(*                                                                         *)
(* kind  "thread"  one FIFO queue                                          *)
(*       "procs"   several producer processes: each has its own order      *)
(* quiet: all calls in progress are blocked. A blocked put needs a full    *)
(* queue, a blocked get an empty one.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, cs, verdict, tr
vars == <<tid, l, cs, verdict, tr>>
View == <<tid, l, cs, verdict>>

Init == /\ LET ts == Traces IN \E i \in DOMAIN ts : tid = i /\ tr = ts[i]
        /\ l = 1
        /\ cs = {[q |-> <<>>, cap |-> tr.cap, held |-> 0, ops |-> <<>>]}
        /\ verdict = "run"

\* ops: sequence (one place per thread) of [op, v, blk, st, r, rv]
\* st "none" | "open" | "popped" | "done"; r: ok | full | empty | stopped
Late == tr.kind # "thread"
Full(c) == Len(c.q) + c.held >= c.cap
Fin(c, t, r, rv) == [c EXCEPT !.ops = [@ EXCEPT ![t].st = "done", ![t].r = r, ![t].rv = rv]]
Producer(v) == v \div 1000
\* Positions of items that a get may take.
Heads(q) == IF tr.kind = "procs" THEN {j \in DOMAIN q : \A i \in 1..(j - 1) : Producer(q[i]) # Producer(q[j])}
            ELSE IF q = <<>> THEN {} ELSE {1}
\* What call t can do in configuration c. rs: how the call is known to end.
Moves(c, t) ==
  LET o == c.ops[t] IN
  IF o.st = "popped" THEN {[Fin(c, t, "ok", o.rv) EXCEPT !.held = @ - 1]}
  ELSE IF o.st # "open" THEN {}
  ELSE CASE o.op = "put" ->
              (IF ~Full(c) THEN {Fin([c EXCEPT !.q = Append(@, o.v)], t, "ok", 0)} ELSE {})
              \cup (IF o.blk # 1 /\ Full(c) THEN {Fin(c, t, "full", 0)} ELSE {})
              \cup (IF o.blk = 3 THEN {Fin(c, t, "stopped", 0)} ELSE {})
         [] o.op = "get" ->
              {LET d == [c EXCEPT !.q = RemoveAt(@, j)] IN
               IF Late THEN [d EXCEPT !.held = @ + 1, !.ops = [@ EXCEPT ![t].st = "popped", ![t].rv = c.q[j]]]
               ELSE Fin(d, t, "ok", c.q[j]) : j \in Heads(c.q)}
              \cup (IF o.blk # 1 /\ (c.q = <<>> \/ ~o.sure) THEN {Fin(c, t, "empty", 0)} ELSE {})
              \cup (IF o.blk = 3 THEN {Fin(c, t, "stopped", 0)} ELSE {})
         [] o.op = "cap" -> {Fin([c EXCEPT !.cap = o.v], t, "ok", 0)}
         [] o.op = "size" -> {Fin(c, t, "ok", Len(c.q) + c.held)}
         [] o.op = "full" -> {Fin(c, t, "ok", IF Full(c) THEN 1 ELSE 0)}
         [] o.op = "empty" -> {Fin(c, t, "ok", IF c.q = <<>> THEN 1 ELSE 0)}
RECURSIVE Close(_, _)
Close(seen, new) ==
  IF new = {} THEN seen
  ELSE LET nx == UNION {UNION {Moves(c, t) : t \in DOMAIN c.ops} : c \in new}
       IN Close(seen \cup new, nx \ (seen \cup new))

None0 == [op |-> "none", v |-> 0, blk |-> 0, sure |-> TRUE, st |-> "none", r |-> "", rv |-> 0]
Grown(ops, t) == IF Len(ops) >= t THEN ops ELSE ops \o [j \in 1..(t - Len(ops)) |-> None0]
After(e) ==
  CASE e.e = "inv" ->
         {[c EXCEPT !.ops = [Grown(@, e.t) EXCEPT ![e.t] = [op |-> e.op, v |-> e.v, blk |-> e.blk, sure |-> e.sure, st |-> "open", r |-> "", rv |-> 0]]] : c \in cs}
    [] e.e = "res" ->
         {[c EXCEPT !.ops = [@ EXCEPT ![e.t] = None0]] :
            c \in {c \in Close({}, cs) : c.ops[e.t].st = "done" /\ c.ops[e.t].r = e.r /\ c.ops[e.t].rv = e.v}}
    [] e.e = "quiet" -> \* blocked calls cannot have any effect
         {c \in Close({}, cs) : \A t \in DOMAIN c.ops : c.ops[t].st \in {"none", "open"} /\ Moves(c, t) = {}}
    [] e.e = "left" -> {c \in Close({}, cs) : Len(c.q) = e.v}
    [] e.e = "raise" -> {}
Why(e) == CASE e.e = "raise" -> "operation failed: " \o e.op
            [] e.e = "quiet" -> "a call waits although it could go on"
            [] e.e = "left" -> "items are lost or repeated"
            [] e.e = "res" -> "not linearizable: " \o (LET o == (CHOOSE c \in cs : TRUE).ops[e.t] IN o.op) \o " returned " \o e.r
            [] OTHER -> "harness"
Ev == tr.ev
Step == /\ verdict = "run" /\ l <= Len(Ev)
        /\ LET a == After(Ev[l]) IN
           IF a # {} THEN l' = l + 1 /\ cs' = a /\ UNCHANGED <<tid, verdict>>
           ELSE /\ verdict' = Why(Ev[l])
                /\ PrintT(<<"REJECT", tid, l, Why(Ev[l]), Ev[l].e>>)
                /\ UNCHANGED <<tid, l, cs>>
Done == /\ verdict = "run" /\ l = Len(Ev) + 1
        /\ verdict' = "accept"
        /\ PrintT(<<"ACCEPT", tid>>)
        /\ UNCHANGED <<tid, l, cs>>
Next == (Step \/ Done) /\ tr' = tr
Spec == Init /\ [][Next]_vars
TypeOK == cs # {}
=============================================================================
