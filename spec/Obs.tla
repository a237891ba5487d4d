-------------------------------- MODULE Obs --------------------------------
(***************************************************************************)
(* Trace specification of observations on the tables a pipeline is built   *)
(* from: permutations (C07), partitions (C08), mixtures (C10) and random   *)
(* draws (C18).                                                            *)
(*                                                                         *)
(* State:                                                                  *)
(*   mem   the draws seen so far: a random function sampled lazily. A key  *)
(*         (what the draw may depend on) has one value for ever, and       *)
(*         different keys of a group have different values.                *)
(*   cnt   elements taken so far from each component of the mixture        *)
(*   hist  the selections of the mixture so far                            *)
(*   icnt  elements taken by the mixing iterator from each component       *)
(***************************************************************************)
EXTENDS Pipe, MixOps, FiniteSetsExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, verdict, mem, cnt, hist, icnt, tr
vars == <<tid, l, verdict, mem, cnt, hist, icnt, tr>>
View == <<tid, l, verdict>>

Zero == IF "w" \in DOMAIN tr THEN [c \in DOMAIN tr.w |-> 0] ELSE <<>>
Init == /\ LET ts == Traces IN \E k \in DOMAIN ts : tid = k /\ tr = ts[k]
        /\ l = 1
        /\ verdict = "run"
        /\ mem = {}
        /\ cnt = Zero
        /\ icnt = Zero
        /\ hist = <<>>

----------------------------------------------------------------------------
\* Permutations: v holds n indices; windows of w (0: one window).
PermOK(v, n, w) ==
  /\ Len(v) = n
  /\ Range(v) = 0..(n - 1)
  /\ w = 0 \/ \A j \in 1..n : v[j] \div w = (j - 1) \div w

----------------------------------------------------------------------------
\* Partitions of 0..n-1 into parts.
Increasing(s) == \A j \in 1..(Len(s) - 1) : s[j] < s[j + 1]
Sizes(ps) == {Len(ps[j]) : j \in DOMAIN ps}
PartsOK(e) ==
  LET k == Len(e.parts)
      all == FlattenSeq(e.parts)
      m == IF e.drop = 1 THEN (e.n \div k) * k ELSE e.n
  IN /\ Len(all) = m
     /\ Range(all) = 0..(m - 1)
     /\ \A j \in 1..k : Increasing(e.parts[j])
     /\ Max(Sizes(e.parts)) - Min(Sizes(e.parts)) <= (IF e.drop = 1 THEN 0 ELSE 1)
\* Additionally in consecutive pieces, or strided.
ModeOK(e) ==
  CASE e.mode = "contig" -> Increasing(FlattenSeq(e.parts))
    [] e.mode = "strided" -> \A j \in DOMAIN e.parts : \A i \in DOMAIN e.parts[j] :
                               e.parts[j][i] = (i - 1) * Len(e.parts) + (j - 1)
    [] OTHER -> TRUE
\* What n workers visited in round-robin order put together.
RoundRobin(ps) == LET n == Max(Sizes(ps) \cup {0}) IN
  FlattenSeq([i \in 1..n |-> FlattenSeq([j \in DOMAIN ps |-> IF i <= Len(ps[j]) THEN <<ps[j][i]>> ELSE <<>>])])

----------------------------------------------------------------------------
Present(xs) == SelectSeq(xs, LAMBDA x : x # None)
Bump(f, c) == [f EXCEPT ![c] = @ + 1]

Judge(e) ==
  CASE e.e = "perm" -> IF PermOK(e.v, e.n, e.w) THEN "ok" ELSE "not a permutation"
    [] e.e = "sample" ->   \* some indices of a long shuffle, as <<high, low>>
         IF /\ Cardinality(Range(e.v)) = Len(e.v)
            /\ \A j \in DOMAIN e.v : \/ e.v[j][1] < e.n[1] /\ e.v[j][1] >= 0
                                     \/ e.v[j][1] = e.n[1] /\ e.v[j][2] < e.n[2]
         THEN "ok" ELSE "not injective into the range"
    [] e.e = "draw" ->
         IF \E d \in mem : d[1] = e.g /\ d[2] = e.k
         THEN IF <<e.g, e.k, e.v>> \in mem THEN "ok" ELSE "draw differs from an earlier one for the same seed and position"
         ELSE IF \E d \in mem : d[1] = e.g /\ d[3] = e.v THEN "same draw for different seeds or positions"
         ELSE "ok"
    [] e.e = "slice" ->
         IF e.len # SliceLen(e, e.n) THEN "wrong length of the slice"
         ELSE IF e.v # [j \in 1..SliceLen(e, e.n) |-> SliceStart(e, e.n) + (j - 1) * SliceStep(e)] THEN "wrong slice"
         ELSE "ok"
    [] e.e = "parts" -> IF ~PartsOK(e) THEN "not a partition into even parts"
                        ELSE IF ~ModeOK(e) THEN "parts in the wrong order" ELSE "ok"
    [] e.e = "rr" -> IF e.v = RoundRobin(e.parts) THEN "ok" ELSE "workers do not put the partition together"
    [] e.e = "bag" ->   \* the same elements, in any order
         IF SortSeq(e.v, LAMBDA a, b : a < b) = SortSeq(e.x, LAMBDA a, b : a < b) THEN "ok" ELSE "elements lost or repeated"
    [] e.e = "seq" -> IF e.v = e.x THEN "ok" ELSE "wrong elements: " \o e.what
    [] e.e = "mixlen" ->
         LET x == ExactLen(tr.w, tr.lens) IN
         IF tr.tol = 1 THEN IF 50 * (e.v - x) <= x + 50 /\ 50 * (x - e.v) <= x + 50 THEN "ok" ELSE "wrong length of the mixture"
         ELSE IF e.v \in {x - 1, x} THEN "ok" ELSE "wrong length of the mixture"
    [] e.e = "mix" ->   \* the next position of the mixture
         IF e.c \notin DOMAIN tr.w THEN "element of no component"
         ELSE IF e.k # cnt[e.c] % tr.lens[e.c] THEN "component element skipped or repeated"
         ELSE IF e.len >= 0 /\ Len(hist) < e.len /\ cnt[e.c] >= tr.lens[e.c] THEN "component repeats within the length of the mixture"
         ELSE IF \E c \in DOMAIN tr.w : ~Share(tr.w, cnt[c] + (IF c = e.c THEN 1 ELSE 0), Len(hist) + 1, c, tr.tol = 1)
              THEN "component not in proportion"
         ELSE "ok"
    [] e.e = "mixat" -> IF <<e.c, e.k>> = <<hist[e.i + 1][1], hist[e.i + 1][2] % tr.lens[hist[e.i + 1][1]]>> THEN "ok" ELSE "random access differs from the sequence"
    [] e.e = "mixfar" ->  \* far away: the key is the count of the component
         IF e.c \notin DOMAIN tr.w THEN "element of no component"
         ELSE IF Share(tr.w, e.k, e.i, e.c, tr.tol = 1) THEN "ok" ELSE "component not in proportion"
    [] e.e = "inext" ->
         LET n == FoldFunction(LAMBDA a, b : a + b, 0, icnt) IN
         IF e.c # hist[n + 1][1] THEN "iterator takes another component"
         ELSE IF e.k # icnt[e.c] THEN "component element skipped or repeated by the iterator"
         ELSE "ok"
    [] e.e = "istop" ->
         LET n == FoldFunction(LAMBDA a, b : a + b, 0, icnt)
             c == hist[n + 1][1]
         IN IF icnt[c] = tr.ilens[c] THEN "ok" ELSE "iterator mixture ended early"
    [] e.e = "iset" -> "ok"
    [] e.e = "concat" ->
         LET n == FoldFunction(LAMBDA a, b : a + b, 0, tr.lens)
             ep == e.i \div n
             o == e.i % n
             before(c) == FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(tr.lens, 1, c - 1))
             c == CHOOSE c \in DOMAIN tr.lens : before(c) <= o /\ o < before(c) + tr.lens[c]
         IN IF <<e.c, e.k>> = <<c, o - before(c) + ep * tr.lens[c]>> THEN "ok" ELSE "wrong element of the concatenation"
    [] e.e = "truth" -> IF e.v = 1 THEN "ok" ELSE e.what
    [] e.e = "raise" -> "operation failed: " \o e.op

Ev == tr.ev
Step == /\ verdict = "run"
        /\ l <= Len(Ev)
        /\ LET e == Ev[l]
               j == Judge(e) IN
           IF j = "ok"
           THEN /\ l' = l + 1
                /\ mem' = IF e.e = "draw" THEN mem \cup {<<e.g, e.k, e.v>>} ELSE mem
                /\ cnt' = IF e.e = "mix" THEN Bump(cnt, e.c) ELSE cnt
                /\ hist' = IF e.e = "mix" THEN Append(hist, <<e.c, cnt[e.c]>>) ELSE hist
                /\ icnt' = CASE e.e = "inext" -> Bump(icnt, e.c)
                             [] e.e = "iset" -> e.v
                             [] OTHER -> icnt
                /\ UNCHANGED <<tid, verdict>>
           ELSE /\ verdict' = j
                /\ PrintT(<<"REJECT", tid, l, j, e.e>>)
                /\ UNCHANGED <<tid, l, mem, cnt, hist, icnt>>
Done == /\ verdict = "run"
        /\ l = Len(Ev) + 1
        /\ verdict' = "accept"
        /\ PrintT(<<"ACCEPT", tid>>)
        /\ UNCHANGED <<tid, l, mem, cnt, hist, icnt>>
Next == (Step \/ Done) /\ tr' = tr
Spec == Init /\ [][Next]_vars

TypeOK == l \in 1..(Len(Ev) + 1)
=============================================================================
