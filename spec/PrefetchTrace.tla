--------------------------- MODULE PrefetchTrace ---------------------------
(***************************************************************************)
(* Trace specification of prefetching iterators: from a random-access      *)
(* dataset with a thread pool (C03), from an iterator in a background      *)
(* thread (C04) and in a worker process (C05). A trace contains what the   *)
(* client calls and gets, and every read of the parent, in one order.      *)
(*                                                                         *)
(*   pos   elements handed out             snap  saved positions           *)
(*   op    operation in progress, tgt: where it moves to                   *)
(*   B, T  buffer size and threads in force, tt: threads ever created      *)
(*   hi    highest index that may be read  (pool)                          *)
(*   stale reads that may still begin after a restore: [lo, hi, n]         *)
(*   run   reads in progress: <<k, ticket>>, old: tickets that are void    *)
(*   outs  results of reads: <<k, outcome>>                                *)
(*   kp    position of the parent iterator                                 *)
(*   on    the parent may be read in the background                        *)
(*   exh   at the end (process)            died  the worker is dead        *)
(*   bad   the parent could not be moved, the worker has failed             *)
(*   req   positions requested from the worker, lim: how far it may read   *)
(*         until it has moved there                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, verdict, s, tr
vars == <<tid, l, verdict, s, tr>>
View == <<tid, l, verdict>>

Init == /\ LET ts == Traces IN \E k \in DOMAIN ts : tid = k /\ tr = ts[k]
        /\ l = 1 /\ verdict = "run"
        /\ s = [pos |-> 0, snap |-> [j \in 0..3 |-> -1], op |-> "", tgt |-> 0, sl |-> 0, B |-> tr.b, T |-> tr.t, tt |-> tr.t,
                hi |-> -1, stale |-> [lo |-> 0, hi |-> -1, n |-> 0], run |-> {}, old |-> {}, outs |-> {}, kp |-> 0,
                on |-> FALSE, exh |-> FALSE, died |-> FALSE, bad |-> FALSE, req |-> <<>>, lim |-> 0, closed |-> FALSE]
N == tr.n
None == ToSet(tr.none)
Pool == tr.kind = "pool"
Thread == tr.kind = "thread"
Proc == tr.kind = "proc"
Max2(a, b) == IF a < b THEN b ELSE a
First(p) == LET c == {j \in p..(N - 1) : j \notin None} IN IF c = {} THEN N ELSE Min(c)
Eff(b, t) == IF t = 0 THEN 0 ELSE b
Void(x) == [x EXCEPT !.old = @ \cup {r[2] : r \in x.run}, !.outs = {}]

----------------------------------------------------------------------------
\* The consumer calls.
MoveTo(x, p) ==   \* restore or seek
  CASE Pool -> [Void(x) EXCEPT !.tgt = p, !.stale = [lo |-> 0, hi |-> x.hi, n |-> x.tt - Cardinality(x.run)], !.hi = p - 1]
    [] Thread -> [x EXCEPT !.tgt = p, !.outs = {}]
    [] Proc -> [Void(x) EXCEPT !.tgt = p, !.pos = p, !.exh = FALSE, !.req = Append(@, p), !.lim = Max2(x.lim, x.pos + x.B + 2)]
Call(e) ==
  LET x == [s EXCEPT !.op = e.op] IN
  CASE e.op = "next" -> IF Pool THEN [x EXCEPT !.hi = Max2(@, First(x.pos) + Eff(x.B, x.T))]
                        ELSE [x EXCEPT !.on = @ \/ (x.B > 0 /\ ~x.exh)]
    [] e.op = "start" -> IF Pool THEN IF Eff(x.B, x.T) > 0 THEN [x EXCEPT !.hi = Max2(@, x.pos - 1 + Eff(x.B, x.T))] ELSE x
                         ELSE [x EXCEPT !.on = @ \/ x.B > 0]
    [] e.op = "get" -> [x EXCEPT !.sl = e.s]
    [] e.op = "set" -> MoveTo(x, x.snap[e.s])
    [] e.op = "seek" -> MoveTo(x, e.k)
    [] e.op = "setB" -> [x EXCEPT !.B = e.b]
    [] e.op = "setT" -> [x EXCEPT !.T = e.t, !.tt = @ + e.t]
    [] e.op = "close" -> IF Pool THEN [x EXCEPT !.stale = [lo |-> 0, hi |-> x.hi, n |-> x.tt - Cardinality(x.run)], !.hi = -1] ELSE x
    [] e.op = "index" -> x
\* The call ends without a result.
Done(e) ==
  LET x == [s EXCEPT !.op = ""] IN
  CASE s.op = "get" -> [x EXCEPT !.snap = [@ EXCEPT ![s.sl] = s.pos]]
    \* asking for the index may move the parent back to the position
    [] s.op = "index" -> IF Thread /\ s.tgt = -2 THEN [x EXCEPT !.on = FALSE, !.tgt = s.pos] ELSE x
    [] s.op \in {"set", "seek"} -> IF Proc THEN x ELSE [x EXCEPT !.pos = s.tgt, !.on = FALSE]
    [] s.op = "close" -> [x EXCEPT !.on = FALSE, !.closed = TRUE]
    [] OTHER -> x
DoneOK(e) == CASE s.op \in {"set", "seek"} /\ Thread -> s.kp = s.tgt /\ s.run = {}
            [] s.op = "next" -> FALSE
            [] s.op = "index" -> (IF Pool THEN e.v \in s.pos..First(s.pos) ELSE e.v = s.pos) /\ ((Thread /\ s.tgt = -2) => (s.run = {} /\ s.kp = s.pos))
            [] OTHER -> TRUE
\* The call of next ends.
RetOK(v) == /\ s.op = "next" /\ ~s.exh
            /\ v = First(s.pos) /\ v < N
            /\ <<v, 0>> \in s.outs
StopOK == /\ s.op = "next"
          /\ \/ s.exh
             \/ /\ First(s.pos) = N
                /\ Pool \/ <<N, 2>> \in s.outs
Stopped(x) == [x EXCEPT !.op = "", !.on = FALSE, !.exh = Proc, !.outs = {}, !.died = FALSE, !.bad = FALSE, !.req = IF Proc THEN <<>> ELSE @]
ErrOK(e) == /\ s.op = "next" /\ ~s.exh
            /\ \/ Pool /\ \E k \in s.pos..First(s.pos) : <<k, 1>> \in s.outs
               \/ ~Pool /\ e.m # "died" /\ <<s.pos, 1>> \in s.outs
               \/ Proc /\ e.m = "died" /\ s.died
               \/ Proc /\ s.bad /\ e.m # "died"
Err(x) == IF Pool THEN Void([x EXCEPT !.op = ""])
          ELSE [Stopped(x) EXCEPT !.run = {}]

----------------------------------------------------------------------------
\* The parent is read.
BeginOK(e) ==
  /\ e.k >= 0
  /\ CASE Pool -> /\ e.k < N
                  /\ e.k <= s.hi \/ (s.stale.lo <= e.k /\ e.k <= s.stale.hi /\ s.stale.n > 0)
       [] Thread -> /\ s.run = {} /\ e.k = s.kp /\ ~s.closed
                    /\ s.on \/ s.op = "next"
                    /\ e.k <= s.pos + s.B + (IF s.op # "" THEN 1 ELSE 0)
                    /\ s.B = 0 => s.op = "next" /\ e.k <= s.pos
       [] Proc -> /\ s.run = {} /\ e.k = s.kp /\ ~s.closed /\ s.on /\ ~s.died /\ ~s.bad
                  /\ IF s.req = <<>> THEN e.k <= s.pos + s.B + (IF s.op # "" THEN 1 ELSE 0) ELSE e.k <= s.lim
Begin(e) == LET x == [s EXCEPT !.run = @ \cup {<<e.k, e.i>>}] IN
            IF Pool /\ e.k > s.hi THEN [x EXCEPT !.stale = [@ EXCEPT !.n = @ - 1], !.old = @ \cup {e.i}] ELSE x
EndOK(e) == <<e.k, e.i>> \in s.run
End(e) == LET x == [s EXCEPT !.run = @ \ {<<e.k, e.i>>}]
              y == IF e.i \in s.old THEN x ELSE [x EXCEPT !.outs = @ \cup {<<e.k, e.x>>}]
          IN IF ~Pool /\ e.x = 0 THEN [y EXCEPT !.kp = @ + 1] ELSE y
\* The parent is moved.
MoveOK(e) == /\ s.run = {}
             /\ Thread => IF s.op = "index" THEN e.k = s.pos ELSE s.op \in {"set", "seek"} /\ e.k = s.tgt
             /\ Proc => \E j \in DOMAIN s.req : s.req[j] = e.k
Move(e) == IF Thread THEN [s EXCEPT !.kp = e.k, !.tgt = IF s.op = "index" THEN -2 ELSE @, !.outs = IF s.op = "index" THEN {} ELSE @]
           ELSE IF e.x = 1 THEN [s EXCEPT !.bad = TRUE]
           ELSE LET j == CHOOSE j \in DOMAIN s.req : s.req[j] = e.k /\ \A i \in DOMAIN s.req : s.req[i] = e.k => i >= j
                IN [s EXCEPT !.kp = e.k, !.req = SubSeq(@, j + 1, Len(@)), !.lim = e.k + s.B + 2, !.outs = {}]

Judge(e) ==
  CASE e.e = "call" -> IF s.op = "" THEN "ok" ELSE "harness: two calls"
    [] e.e = "done" -> IF DoneOK(e) THEN "ok" ELSE IF s.op = "index" THEN "wrong index" ELSE "the parent is not where it was restored to"
    [] e.e = "ret" -> IF RetOK(e.v) THEN "ok" ELSE "wrong element"
    [] e.e = "stop" -> IF StopOK THEN "ok" ELSE "ended early"
    [] e.e = "err" -> IF ErrOK(e) THEN "ok" ELSE "error without a cause"
    [] e.e = "b" -> IF BeginOK(e) THEN "ok" ELSE "reads too far, at the wrong time or two at a time"
    [] e.e = "f" -> IF EndOK(e) THEN "ok" ELSE "harness: no such read"
    [] e.e = "ps" -> IF MoveOK(e) THEN "ok" ELSE "the parent is moved while it is read or to a wrong position"
    [] e.e = "ws" -> IF s.on /\ ~s.closed THEN "ok" ELSE "a worker is started without need"
    [] e.e = "d" -> "ok"
    [] e.e = "left" -> IF e.v = 0 THEN "ok" ELSE "threads or processes are left behind"
    [] e.e = "raise" -> "operation failed: " \o e.op
After(e) ==
  CASE e.e = "call" -> Call(e)
    [] e.e = "done" -> Done(e)
    [] e.e = "ret" -> [s EXCEPT !.op = "", !.pos = e.v + 1, !.req = <<>>]
    [] e.e = "stop" -> IF s.exh THEN [s EXCEPT !.op = ""] ELSE [Stopped(s) EXCEPT !.pos = IF Pool THEN N ELSE @]
    [] e.e = "err" -> Err(s)
    [] e.e = "b" -> Begin(e)
    [] e.e = "f" -> End(e)
    [] e.e = "ps" -> Move(e)
    [] e.e = "ws" -> [s EXCEPT !.kp = 0, !.run = {}, !.died = FALSE, !.bad = FALSE]
    [] e.e = "d" -> [s EXCEPT !.died = TRUE, !.run = {}]
    [] OTHER -> s

Ev == tr.ev
Step == /\ verdict = "run" /\ l <= Len(Ev)
        /\ LET e == Ev[l]
               j == Judge(e) IN
           IF j = "ok" THEN l' = l + 1 /\ s' = After(e) /\ UNCHANGED <<tid, verdict>>
           ELSE /\ verdict' = j
                /\ PrintT(<<"REJECT", tid, l, j, e.e>>)
                /\ UNCHANGED <<tid, l, s>>
Finish == /\ verdict = "run" /\ l = Len(Ev) + 1
          /\ verdict' = "accept"
          /\ PrintT(<<"ACCEPT", tid>>)
          /\ UNCHANGED <<tid, l, s>>
Next == (Step \/ Finish) /\ tr' = tr
Spec == Init /\ [][Next]_vars
TypeOK == l \in 1..(Len(Ev) + 1)
=============================================================================
