--------------------------- MODULE CkptHelperDesign --------------------------
(***************************************************************************)
(* What the helper promises: iterators here are all small deterministic    *)
(* machines (positions 1..N, a value and a successor of each, the position *)
(* that a saved state leads to). A client of a machine that passes saves   *)
(* and restores in any order, also iterators that were restored before,    *)
(* and always sees the rest of the sequence.                               *)
(***************************************************************************)
EXTENDS CkptHelper, TLC

CONSTANTS N, V
ASSUME N \in Nat /\ V \in Nat

VARIABLES succ, val, jump, pos, seen, saved, fresh
vars == <<succ, val, jump, pos, seen, saved, fresh>>

Pos == 1..N
\* 0 is the end. Successors are larger, so that sequences are finite.
Runs == {f \in [Pos -> 0..N] : \A p \in Pos : f[p] = 0 \/ f[p] > p}

RECURSIVE Seq_(_, _, _)
Seq_(f, v, p) == IF p = 0 THEN <<>> ELSE <<v[p]>> \o Seq_(f, v, f[p])
RECURSIVE Path(_, _)
Path(f, p) == IF p = 0 THEN <<0>> ELSE <<p>> \o Path(f, f[p])

\* A state is the position itself; restoring it goes to jump[position].
Data(f, v, j) ==
  LET path == Path(f, 1) IN
  [vals |-> Seq_(f, v, 1),
   says |-> path,
   shape |-> [k \in DOMAIN path |-> 0],
   back |-> [k \in 1..(Len(path) - 1) |-> j[path[k]]],
   rest |-> [k \in 1..(Len(path) - 1) |-> Seq_(f, v, j[path[k]])]]

Init == /\ succ \in Runs
        /\ val \in [Pos -> 1..V]
        /\ jump \in [Pos -> Pos]
        /\ pos = 1 /\ seen = 0 /\ saved = <<1, 0>> /\ fresh = TRUE

Machine == Data(succ, val, jump)

Next_ == /\ pos # 0
         /\ pos' = succ[pos] /\ seen' = seen + 1
         /\ UNCHANGED <<succ, val, jump, saved, fresh>>
Save == /\ pos # 0 /\ saved' = <<pos, seen>> /\ UNCHANGED <<succ, val, jump, pos, seen, fresh>>
Restore == /\ pos' = jump[saved[1]] /\ seen' = saved[2] /\ fresh' = FALSE
           /\ UNCHANGED <<succ, val, jump, saved>>
\* (others may go round in circles)
Next == Passes(Machine) /\ (Next_ \/ Save \/ Restore)
Spec == Init /\ [][Next]_vars

\* Whoever passes can be saved and restored at will.
Promise == Passes(Machine) => Seq_(succ, val, pos) = From(Machine.vals, seen)
\* Who does not pass fails a client that saves once and restores once.
Needed == (~Passes(Machine)) =>
            \E k \in 0..(Len(Machine.vals) - 1) :
              Machine.rest[k + 1] # From(Machine.vals, k) \/ Machine.back[k + 1] # Machine.says[k + 1]
=============================================================================
