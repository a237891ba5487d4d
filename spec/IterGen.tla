------------------------------ MODULE IterGen ------------------------------
(***************************************************************************)
(* Generator of client histories over the iterator API: NI iterators and   *)
(* NS snapshots. Simulated by TLC (-simulate); every behaviour of depth D  *)
(* is printed as one JSON line and replayed on real pipelines.             *)
(* A step of "next" asks for k elements, so that histories reach the end   *)
(* of the data as well as positions in the middle.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

NI == 2
NS == 3
D == atoi(IOEnv.DEPTH)
Kinds == IOEnv.KINDS   \* which optional operations: "" | "close" | "seek" ...

VARIABLES open, has, hist
vars == <<open, has, hist>>

Its == 0..(NI - 1)
Snaps == 0..(NS - 1)

Init == /\ open = [i \in Its |-> "none"]
        /\ has = {}
        /\ hist = <<>>

Rec(e) == hist' = Append(hist, e)
New(i) == /\ open[i] # "open" \/ RandomElement(1..4) = 1
          /\ open' = [open EXCEPT ![i] = "open"]
          /\ Rec([op |-> "new", i |-> i])
          /\ UNCHANGED has
NextK(i) == /\ open[i] = "open"
            /\ \E k \in {1, 2, 3, 7, 40} : Rec([op |-> "next", i |-> i, k |-> k])
            /\ UNCHANGED <<open, has>>
Get(i, s) == /\ open[i] = "open"
             /\ has' = has \cup {s}
             /\ Rec([op |-> "get", i |-> i, s |-> s])
             /\ UNCHANGED open
Set(i, s) == /\ open[i] = "open"
             /\ s \in has
             /\ Rec([op |-> "set", i |-> i, s |-> s])
             /\ UNCHANGED <<open, has>>
Json(s, f) == /\ f \in has
              /\ has' = has \cup {s}
              /\ Rec([op |-> "json", s |-> s, f |-> f])
              /\ UNCHANGED open
Close(i) == /\ Kinds = "close"
            /\ open[i] = "open"
            /\ open' = [open EXCEPT ![i] = "closed"]
            /\ Rec([op |-> "close", i |-> i])
            /\ UNCHANGED has
Again(i) == /\ Kinds = "close"
            /\ open[i] = "closed"
            /\ \E o \in {"close", "next"} : Rec([op |-> o, i |-> i, k |-> 2])
            /\ UNCHANGED <<open, has>>
Seek(i) == /\ Kinds = "seek"
           /\ open[i] = "open"
           /\ \E k \in 0..11 : Rec([op |-> "seek", i |-> i, k |-> k])
           /\ UNCHANGED <<open, has>>
Index(i) == /\ Kinds = "seek"
            /\ open[i] = "open"
            /\ Rec([op |-> "index", i |-> i])
            /\ UNCHANGED <<open, has>>

Next == /\ Len(hist) < D
        /\ \/ \E i \in Its : New(i) \/ NextK(i) \/ Close(i) \/ Again(i) \/ Seek(i) \/ Index(i)
           \/ \E i \in Its, s \in Snaps : Get(i, s) \/ Set(i, s)
           \/ \E s, f \in Snaps : s # f /\ RandomElement(1..3) = 1 /\ Json(s, f)
Finish == /\ Len(hist) = D
          /\ hist' = Append(hist, [op |-> "end"])
          /\ UNCHANGED <<open, has>>
Spec == Init /\ [][Next \/ Finish]_vars

\* (the single successor of a complete history, so printed once per behaviour)
Emit == Len(hist) = D + 1 => PrintT("HIST " \o ToJson(hist))
=============================================================================
