-------------------------------- MODULE Mix --------------------------------
(***************************************************************************)
(* The selection design of MixOps as a state machine: n elements taken,    *)
(* cnt per component; checked for all small weights and lengths.           *)
(***************************************************************************)
EXTENDS MixOps

CONSTANTS MaxW, MaxC, MaxLen
VARIABLES w, lens, n, cnt
vars == <<w, lens, n, cnt>>
Init == /\ w \in UNION {[1..m -> 1..MaxW] : m \in 1..MaxC}
        /\ lens \in [DOMAIN w -> 1..MaxLen]
        /\ n = 0
        /\ cnt = [c \in DOMAIN w |-> 0]
Next == /\ n < 2 * SumW(w)
        /\ n' = n + 1
        /\ cnt' = [cnt EXCEPT ![PickAt(n, w)[1]] = @ + 1]
        /\ UNCHANGED <<w, lens>>
Spec == Init /\ [][Next]_vars

InOrder == n < 2 * SumW(w) => PickAt(n, w)[2] = cnt[PickAt(n, w)[1]]
Proportional == \A c \in DOMAIN w : Share(w, cnt[c], n, c, FALSE)
NoRepeat == n <= ExactLen(w, lens) => \A c \in DOMAIN w : cnt[c] <= lens[c]
=============================================================================
