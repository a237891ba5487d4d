------------------------------ MODULE CkptHelper ------------------------------
(***************************************************************************)
(* What it means to pass assert_equal_output_after_checkpoint (C30).       *)
(*                                                                         *)
(* A dataset is described by what its iterators do: vals are the elements  *)
(* of a new iterator, says[k + 1] the state it reports after k elements,   *)
(* shape[k + 1] the structure of that state; an iterator restored to       *)
(* says[k + 1] reports the state back[k + 1] and yields rest[k + 1].       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

From(vals, k) == SubSeq(vals, k + 1, Len(vals))

\* Restoring any state that was reported before an element continues there.
Resumes(d) == \A k \in 0..(Len(d.vals) - 1) : d.rest[k + 1] = From(d.vals, k) /\ d.back[k + 1] = d.says[k + 1]
\* States keep their structure, so that they can be written to checkpoints.
Stable(d) == \A k \in 0..Len(d.vals) : d.shape[k + 1] = d.shape[1]

Passes(d) == Len(d.vals) > 0 /\ Stable(d) /\ Resumes(d)
=============================================================================
