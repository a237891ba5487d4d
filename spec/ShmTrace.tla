------------------------------ MODULE ShmTrace ------------------------------
(***************************************************************************)
(* Trace specification of arrays in shared memory (C19). A trace lists     *)
(* operations on arrays held in slots, or the elements a pipeline with     *)
(* worker processes yields, each with the blocks that exist afterwards and *)
(* digests (type, shape, contents) of all arrays in use.                   *)
(*                                                                         *)
(*   sl    slot -> [o, whole, mem, v]: the array object, whether it is all *)
(*         of it, the memory (block number or negative) and the digest     *)
(*   ob    array objects with a block: [b, rel, ho] - whether it releases  *)
(*         the block when it goes and whether it can hand the block over   *)
(*   msg   messages on their way: sequences of [b, v], b = 0: by value     *)
(*   live  blocks that have to exist      lost  blocks nobody releases     *)
(*   pos   elements read from the pipeline                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, verdict, x, tr
vars == <<tid, l, verdict, x, tr>>
View == <<tid, l, verdict>>
Slots == 1..12
Nil == [o |-> 0, whole |-> FALSE, mem |-> 0, v |-> ""]
Init == /\ LET ts == Traces IN \E k \in DOMAIN ts : tid = k /\ tr = ts[k]
        /\ l = 1 /\ verdict = "run"
        /\ x = [sl |-> [s \in Slots |-> Nil], ob |-> <<>>, msg |-> [m \in 1..2 |-> <<>>], live |-> ToSet(tr.base), lost |-> {}, n |-> 0,
                pos |-> 0, snap |-> 0, closed |-> FALSE, ended |-> FALSE]

----------------------------------------------------------------------------
Owner(y, s) == y.sl[s].o # 0 /\ y.sl[s].whole /\ y.ob[y.sl[s].o].ho
\* the array in slot s goes
DropSlot(y, s) ==
  LET o == y.sl[s].o
      z == [y EXCEPT !.sl = [@ EXCEPT ![s] = Nil]]
      last == o # 0 /\ \A t \in Slots : z.sl[t].o # o
      b == IF o = 0 THEN 0 ELSE y.ob[o].b
  IN IF ~last THEN z
     ELSE IF y.ob[o].rel THEN [z EXCEPT !.live = @ \ {b}]
     ELSE IF y.ob[o].ho THEN [z EXCEPT !.lost = @ \cup {b}] ELSE z
Whole(y, t, b, rel, ho, v) == [y EXCEPT !.ob = Append(@, [b |-> b, rel |-> rel, ho |-> ho]), !.live = @ \cup {b},
                                       !.sl = [@ EXCEPT ![t] = [o |-> Len(y.ob) + 1, whole |-> TRUE, mem |-> b, v |-> v]]]
Private(y, t, v) == [y EXCEPT !.n = @ + 1, !.sl = [@ EXCEPT ![t] = [o |-> 0, whole |-> TRUE, mem |-> -(y.n + 1), v |-> v]]]
\* one leaf is sent: by value, by handing the block over, or in a new block
LeafOK(y, s, f) == f.b = 0 \/ f.b \notin y.live \/ (Owner(y, s) /\ y.ob[y.sl[s].o].b = f.b)
SendLeaf(y, m, s, f) ==
  LET z == [y EXCEPT !.msg = [@ EXCEPT ![m] = Append(@, [b |-> f.b, v |-> y.sl[s].v])]] IN
  IF f.b = 0 THEN z
  ELSE IF f.b \notin y.live THEN [z EXCEPT !.live = @ \cup {f.b}]
  ELSE [z EXCEPT !.ob = [@ EXCEPT ![y.sl[s].o] = [b |-> f.b, rel |-> FALSE, ho |-> FALSE]]]
RecvLeaf(y, t, f) == IF f.b = 0 THEN Private(y, t, f.v) ELSE Whole(y, t, f.b, TRUE, FALSE, f.v)
RECURSIVE SendAll(_, _, _, _)
SendAll(y, m, ss, out) == IF ss = <<>> THEN y ELSE SendAll(SendLeaf(y, m, ss[1], out[1]), m, Tail(ss), Tail(out))
RECURSIVE SendOK(_, _, _, _)
SendOK(y, m, ss, out) == ss = <<>> \/ (LeafOK(y, ss[1], out[1]) /\ SendOK(SendLeaf(y, m, ss[1], out[1]), m, Tail(ss), Tail(out)))
RECURSIVE RecvAll(_, _, _)
RecvAll(y, ts, fs) == IF ts = <<>> THEN y ELSE RecvAll(RecvLeaf(y, ts[1], fs[1]), Tail(ts), Tail(fs))
RECURSIVE DropAll(_, _)
DropAll(y, ss) == IF ss = <<>> THEN y ELSE DropAll(DropSlot(y, ss[1]), Tail(ss))

----------------------------------------------------------------------------
\* An element of the pipeline: leaves that are in blocks are opened.
RECURSIVE Element(_, _, _)
Element(y, ts, fs) == IF ts = <<>> THEN y
                      ELSE Element(IF fs[1].b = 0 THEN Private(y, ts[1], fs[1].d) ELSE Whole(y, ts[1], fs[1].b, TRUE, FALSE, fs[1].d), Tail(ts), Tail(fs))
Fresh(y, fs) == \A j \in DOMAIN fs : fs[j].b # 0 =>
                  (\A s \in Slots : y.sl[s].mem # fs[j].b) /\ fs[j].b \notin ToSet(tr.base) /\ (\A i \in DOMAIN fs : i # j => fs[i].b # fs[j].b)
After(e) ==
  CASE e.e = "new" -> IF e.b = 0 THEN Private(x, e.t, e.d) ELSE Whole(x, e.t, e.b, e.k = "ownrel", TRUE, e.d)
    [] e.e = "view" -> [x EXCEPT !.sl = [@ EXCEPT ![e.t] = [o |-> x.sl[e.s].o, whole |-> FALSE, mem |-> x.sl[e.s].mem, v |-> e.d]]]
    [] e.e = "copy" -> Private(x, e.t, x.sl[e.s].v)
    [] e.e = "pickle" -> IF e.b = 0 THEN Private(x, e.t, x.sl[e.s].v) ELSE Whole(x, e.t, e.b, FALSE, FALSE, x.sl[e.s].v)
    [] e.e = "write" -> [x EXCEPT !.sl = [s \in Slots |-> IF @[s].mem # 0 /\ @[s].mem = x.sl[e.s].mem THEN [@[s] EXCEPT !.v = e.w[s]] ELSE @[s]]]
    [] e.e = "send" -> SendAll(x, e.m, e.ss, e.out)
    [] e.e = "recv" -> RecvAll([x EXCEPT !.msg = [@ EXCEPT ![e.m] = <<>>]], e.ts, x.msg[e.m])
    [] e.e = "discard" -> [x EXCEPT !.msg = [@ EXCEPT ![e.m] = <<>>], !.live = @ \ {x.msg[e.m][j].b : j \in DOMAIN x.msg[e.m]}]
    [] e.e = "drop" -> DropAll(x, e.ss)
    [] e.e = "batch" -> IF e.failed THEN x ELSE IF e.b = 0 THEN Private(x, e.t, e.d) ELSE Whole(x, e.t, e.b, TRUE, TRUE, e.d)
    [] e.e = "many" -> x
    \* pipelines
    [] e.e = "next" -> Element([x EXCEPT !.pos = @ + 1], e.ts, e.fs)
    [] e.e = "stop" -> [x EXCEPT !.ended = TRUE]
    [] e.e = "err" -> x
    [] e.e = "save" -> [x EXCEPT !.snap = x.pos]
    [] e.e = "restore" -> [x EXCEPT !.pos = x.snap, !.ended = FALSE]
    [] e.e = "close" -> [x EXCEPT !.closed = TRUE]
    [] OTHER -> x
\* What the operation itself has to satisfy.
Right(e) ==
  CASE e.e = "send" -> IF SendOK(x, e.m, e.ss, e.out) THEN "ok" ELSE "a block is handed over that is released elsewhere"
    [] e.e = "new" -> IF e.b \in x.live THEN "a block is used twice" ELSE "ok"
    [] e.e = "pickle" -> IF e.b # 0 /\ e.b # x.sl[e.s].mem THEN "a pickled array is in a block of its own" ELSE "ok"
    [] e.e = "next" -> IF x.pos >= tr.len THEN "more elements than there are"
                        ELSE IF [j \in DOMAIN e.fs |-> e.fs[j].d] # tr.want[x.pos + 1] THEN "an element arrives with other type, shape or contents"
                        ELSE IF ~Fresh(x, e.fs) THEN "a block is handed over that is in use" ELSE "ok"
    [] e.e = "stop" -> IF x.pos = tr.len /\ ~tr.fails THEN "ok" ELSE "ended early"
    [] e.e = "err" -> IF x.pos = tr.len /\ tr.fails THEN "ok" ELSE "error without a cause"
    [] e.e = "raise" -> "operation failed: " \o e.op
    [] OTHER -> "ok"
\* The blocks that exist after it. A running worker has its buffer full, and threads refer to the last element.
Spare(y) == IF "spare" \notin DOMAIN tr \/ y.closed THEN 0 ELSE IF y.ended THEN tr.keep ELSE tr.spare
Blocks(e, y) ==
  LET got == ToSet(e.live) \ y.lost
      must == y.live \ y.lost
  IN IF ~(must \subseteq got) THEN "a block is released while it is needed"
     ELSE IF Cardinality(got \ must) > Spare(y) THEN "a block is left behind"
     ELSE "ok"
Values(e, y) == IF \A j \in DOMAIN e.vals : e.vals[j][2] = y.sl[e.vals[j][1]].v THEN "ok" ELSE "the contents of an array have changed"
Judge(e) ==
  IF Right(e) # "ok" THEN Right(e)
  ELSE LET y == After(e) IN
       IF Blocks(e, y) # "ok" THEN Blocks(e, y) ELSE Values(e, y)

Ev == tr.ev
Step == /\ verdict = "run" /\ l <= Len(Ev)
        /\ LET e == Ev[l]
               j == Judge(e) IN
           IF j = "ok" THEN l' = l + 1 /\ x' = After(e) /\ UNCHANGED <<tid, verdict>>
           ELSE /\ verdict' = j
                /\ PrintT(<<"REJECT", tid, l, j, e.e>>)
                /\ UNCHANGED <<tid, l, x>>
Finish == /\ verdict = "run" /\ l = Len(Ev) + 1
          /\ verdict' = "accept"
          /\ PrintT(<<"ACCEPT", tid>>)
          /\ UNCHANGED <<tid, l, x>>
Next == (Step \/ Finish) /\ tr' = tr
Spec == Init /\ [][Next]_vars
TypeOK == l \in 1..(Len(Ev) + 1)
=============================================================================
