---------------------------- MODULE OptionsDesign ----------------------------
(***************************************************************************)
(* How options travel (C31): iterators are made from the source outwards.   *)
(* All iterators of a pipeline share one context.  A transformation takes   *)
(* the context of its first parent, merges those of the others into it and  *)
(* gives it to all iterators below them; setting options changes the shared *)
(* context.  TLC makes all pipelines with up to MaxNodes transformations.   *)
(* Deep = FALSE: only the parents get the merged context, not what is below.*)
(* Mine = FALSE: options that are there already win over those set later.   *)
(***************************************************************************)
EXTENDS Options, FiniteSets, TLC

CONSTANTS MaxNodes, Deep, Mine

Opts == [a : {Unset, 1, 2}, b : {Unset, 1}]
None == [a |-> Unset, b |-> Unset]

VARIABLES node,    \* node k: its parents and its context
          heap,    \* the contexts
          stack,   \* the pipelines made so far
          want     \* what the options of each pipeline should be
vars == <<node, heap, stack, want>>

Init == node = <<>> /\ heap = <<>> /\ stack = <<>> /\ want = <<>>

RECURSIVE Below(_)
Below(k) == {k} \cup UNION {Below(p) : p \in {node[k].par[i] : i \in DOMAIN node[k].par}}

Room == Len(node) < MaxNodes
Pop(n) == SubSeq(stack, 1, Len(stack) - n)
Top == stack[Len(stack)]

Source == /\ Room
          /\ node' = Append(node, [par |-> <<>>, ctx |-> Len(heap) + 1])
          /\ heap' = Append(heap, None)
          /\ stack' = Append(stack, Len(node) + 1)
          /\ want' = Append(want, None)

Map == /\ Room /\ stack # <<>>
       /\ node' = Append(node, [par |-> <<Top>>, ctx |-> node[Top].ctx])
       /\ stack' = Append(Pop(1), Len(node) + 1)
       /\ want' = Append(want, want[Top])
       /\ UNCHANGED heap

\* setting options makes no iterator of its own
Set(o) == /\ Room /\ stack # <<>>
          /\ LET c == node[Top].ctx IN
             heap' = [heap EXCEPT ![c] = IF Mine THEN Over(o, heap[c]) ELSE Over(heap[c], o)]
          /\ want' = [want EXCEPT ![Top] = Over(o, want[Top])]
          /\ UNCHANGED <<node, stack>>

Join == /\ Room /\ Len(stack) > 1
        /\ LET p == stack[Len(stack) - 1]
               q == Top
               c == node[p].ctx
               moved == IF Deep THEN Below(q) ELSE {q}
           IN /\ heap' = [heap EXCEPT ![c] = Over(heap[c], heap[node[q].ctx])]
              /\ node' = Append([k \in DOMAIN node |-> IF k \in moved THEN [node[k] EXCEPT !.ctx = c] ELSE node[k]],
                                [par |-> <<p, q>>, ctx |-> c])
              /\ want' = Append(want, Over(want[p], want[q]))
        /\ stack' = Append(Pop(2), Len(node) + 1)

Pool == Opts \ {None}

Next == Source \/ Map \/ Join \/ \E o \in Pool : Set(o)
Spec == Init /\ [][Next]_vars

TypeOK == \A k \in DOMAIN node : node[k].ctx \in DOMAIN heap
\* every iterator of a pipeline works with the options of the pipeline
SameOptions == \A i \in DOMAIN stack : \A k \in Below(stack[i]) : heap[node[k].ctx] = want[stack[i]]
\* pipelines have nothing in common unless they are joined
Separate == \A i, j \in DOMAIN stack : i # j => node[stack[i]].ctx # node[stack[j]].ctx
=============================================================================
