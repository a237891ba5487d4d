------------------------------- MODULE ShmGen -------------------------------
(***************************************************************************)
(* Histories of arrays that are made, viewed, copied, pickled, batched,    *)
(* changed, sent, received, discarded and dropped (C19). `use` tells what  *)
(* the slots hold: "" nothing, "a" an array, "v" a view. `msg` tells which *)
(* messages are on their way.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Slots, Msgs
D == atoi(IOEnv.DEPTH)
VARIABLES use, msg, hist
vars == <<use, msg, hist>>
Rec(e) == hist' = Append(hist, e)
Pick(k) == RandomElement(1..k) = 1
Full == {s \in Slots : use[s] # ""}
Init == use = [s \in Slots |-> ""] /\ msg = [m \in Msgs |-> 0] /\ hist = <<>>
Put(t, u) == use' = [use EXCEPT ![t] = u]
\* A slot is taken only while it is empty.
New(t, k) == use[t] = "" /\ Put(t, "a") /\ UNCHANGED msg /\ Rec([op |-> "new", t |-> t, k |-> k])
From(s, t, o, u) == s \in Full /\ use[t] = "" /\ Put(t, u) /\ UNCHANGED msg /\ Rec([op |-> o, s |-> s, t |-> t])
Write(s) == s \in Full /\ UNCHANGED <<use, msg>> /\ Rec([op |-> "write", s |-> s])
Drop(s) == s \in Full /\ Put(s, "") /\ UNCHANGED msg /\ Rec([op |-> "drop", s |-> s])
Send(m, ss) == ss # {} /\ msg[m] = 0 /\ msg' = [msg EXCEPT ![m] = Cardinality(ss)] /\ UNCHANGED use /\ Rec([op |-> "send", m |-> m, ss |-> ss])
Recv(m, ts) == /\ msg[m] # 0 /\ Cardinality(ts) = msg[m] /\ \A t \in ts : use[t] = ""
               /\ msg' = [msg EXCEPT ![m] = 0] /\ use' = [s \in Slots |-> IF s \in ts THEN "a" ELSE use[s]]
               /\ Rec([op |-> "recv", m |-> m, ts |-> ts])
Discard(m) == msg[m] # 0 /\ msg' = [msg EXCEPT ![m] = 0] /\ UNCHANGED use /\ Rec([op |-> "discard", m |-> m])
Batch(s, t, bad) == s \in Full /\ use[t] = "" /\ Put(t, IF bad THEN "" ELSE "a") /\ UNCHANGED msg /\ Rec([op |-> "batch", s |-> s, t |-> t, bad |-> bad])
Sync == UNCHANGED <<use, msg>> /\ Rec([op |-> "many"])
Step == \/ \E t \in Slots, k \in {"plain", "own", "ownrel"} : Pick(2) /\ New(t, k)
        \/ \E s, t \in Slots, o \in {"view", "copy", "pickle"} : Pick(3) /\ From(s, t, o, IF o = "view" THEN "v" ELSE "a")
        \/ \E s \in Slots : Pick(4) /\ Write(s)
        \/ \E s \in Slots : Drop(s)
        \/ \E m \in Msgs, ss \in SUBSET Full : Cardinality(ss) <= 3 /\ Send(m, ss)
        \/ \E m \in Msgs, ts \in SUBSET Slots : Recv(m, ts)
        \/ \E m \in Msgs : Pick(2) /\ Discard(m)
        \/ \E s, t \in Slots : Pick(6) /\ (Batch(s, t, FALSE) \/ (Pick(3) /\ Batch(s, t, TRUE)))
        \/ Pick(20) /\ Sync
Next == \/ Len(hist) < D /\ Step
        \/ Len(hist) = D /\ Rec([op |-> "end"]) /\ UNCHANGED <<use, msg>>
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = D + 1 => PrintT("HIST " \o ToJson(hist))
=============================================================================
