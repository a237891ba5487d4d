-------------------------------- MODULE Pipe --------------------------------
(***************************************************************************)
(* Denotational semantics of Grain pipelines.                              *)
(*                                                                         *)
(* A pipeline is a record with a field "op" (and parameters); it is read   *)
(* from JSON, i.e. the same syntax tree is used to build the real pipeline *)
(* (harness/pipes.py) and to evaluate the specification.                   *)
(*                                                                         *)
(* Elements are encoded as sequences of integers: the atom n is <<n>>      *)
(* (0 <= n < M), a list / tuple / batch of k members is <<-1000-k>> followed*)
(* by the members, and None is <<-2>>.                                     *)
(*                                                                         *)
(* Random-access pipelines denote a length MLen(p) and a total function    *)
(* MAt(p, i) on 0..  (indices past the length are later epochs); iterator  *)
(* pipelines denote the finite sequence ISeq(p).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

M == 9973            \* all atoms are below this prime
None == <<-2>>
NoArg == 99999       \* an omitted slice bound

\* An element whose production fails with error k. A sequence that contains one
\* ends there: what follows a failure is not specified.
Err(k) == <<-9, k>>
IsErr(x) == x[1] = -9
Cut(xs) == LET es == {j \in DOMAIN xs : IsErr(xs[j])} IN
           IF es = {} THEN xs ELSE SubSeq(xs, 1, CHOOSE j \in es : \A k \in es : j <= k)
\* The first failure among the elements xs, else y.
FirstErr(xs, y) == LET es == {j \in DOMAIN xs : IsErr(xs[j])} IN
                   IF es = {} THEN y ELSE xs[CHOOSE j \in es : \A k \in es : j <= k]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
CeilDiv(a, b) == (a + b - 1) \div b

ListOf(xs) == FirstErr(xs, <<-1000 - Len(xs)>> \o FlattenSeq(xs))
IsList(x) == x[1] <= -1000
Count(x) == -1000 - x[1]
\* Members of a list all of whose members have encodings of the same length.
Member(x, j) == LET w == (Len(x) - 1) \div Count(x) IN SubSeq(x, 2 + (j - 1) * w, 1 + j * w)
Members(x) == [j \in 1..Count(x) |-> Member(x, j)]

\* A function applied to every atom of an element.
Atoms(x, F(_)) == [j \in DOMAIN x |-> IF x[j] >= 0 THEN F(x[j]) ELSE x[j]]
Affine(p, x) == IF x = None \/ IsErr(x) THEN x
                ELSE LET f(n) == (p.a * n + p.b) % M IN Atoms(x, f)
WithIndex(p, i, x) == IF x = None \/ IsErr(x) THEN x
                      ELSE LET f(n) == (n + p.a * i) % M IN Atoms(x, f)
WithRandom(p, i, x) == IF x = None \/ IsErr(x) THEN x
                       ELSE LET f(n) == (n + p.tab[i + 1]) % M IN Atoms(x, f)
Keeps(p, x) == IsErr(x) \/ (x # None /\ (x[1] % p.m) # p.r)
\* A user function that fails on some elements.
Fails(p, x) == IF ~IsErr(x) /\ x # None /\ x[1] >= 0 /\ (x[1] % p.m) = p.r THEN Err(p.k) ELSE x
Combine(xs) == IF \E j \in DOMAIN xs : IsErr(xs[j]) THEN FirstErr(xs, None) ELSE IF \E j \in DOMAIN xs : xs[j] = None THEN None
               ELSE <<FoldLeft(LAMBDA acc, x : (acc * 31 + x[1] + 1) % M, 7, xs)>>
\* The user function of flat-map: n \mod (f+1) values.
Fan(p, x) == IF IsErr(x) THEN <<x>> ELSE [j \in 1..(x[1] % (p.f + 1)) |-> <<(x[1] * 10 + j) % M>>]

(***************************************************************************)
(* Python slice semantics.                                                 *)
(***************************************************************************)
SliceStep(s) == IF s.step = NoArg THEN 1 ELSE s.step
SliceStart(s, n) ==
  LET st == SliceStep(s) IN
  IF s.start = NoArg THEN (IF st > 0 THEN 0 ELSE n - 1)
  ELSE LET a == IF s.start < 0 THEN s.start + n ELSE s.start IN
       IF st > 0 THEN Min2(Max2(a, 0), n) ELSE Min2(Max2(a, -1), n - 1)
SliceStop(s, n) ==
  LET st == SliceStep(s) IN
  IF s.stop = NoArg THEN (IF st > 0 THEN n ELSE -1)
  ELSE LET a == IF s.stop < 0 THEN s.stop + n ELSE s.stop IN
       IF st > 0 THEN Min2(Max2(a, 0), n) ELSE Min2(Max2(a, -1), n - 1)
SliceLen(s, n) ==
  LET st == SliceStep(s)
      a == SliceStart(s, n)
      b == SliceStop(s, n)
  IN IF st > 0 THEN (IF b > a THEN CeilDiv(b - a, st) ELSE 0)
     ELSE (IF a > b THEN CeilDiv(a - b, -st) ELSE 0)

(***************************************************************************)
(* Even split of n records over k shards (the contiguous sharding).        *)
(***************************************************************************)
EvenStart(n, i, k) == i * (n \div k) + Min2(i, n % k)
EvenLen(n, i, k) == (n \div k) + (IF i < n % k THEN 1 ELSE 0)

Sum(xs) == FoldLeft(LAMBDA a, b : a + b, 0, xs)

(***************************************************************************)
(* Random-access pipelines.                                                *)
(***************************************************************************)
RECURSIVE MLen(_)
MLen(p) ==
  CASE p.op = "src" -> Len(p.xs)
    [] p.op = "range" -> SliceLen([start |-> p.start, stop |-> p.stop, step |-> p.step], 100000)
    [] p.op \in {"map", "mapidx", "rmap", "filter", "shuffle", "wshufm", "seed", "fail"} -> MLen(p.p)
    [] p.op = "slice" -> SliceLen(p, MLen(p.p))
    [] p.op = "reindex" -> Len(p.idx)
    [] p.op = "repeat" -> p.n * MLen(p.p)
    [] p.op = "concat" -> Sum([j \in DOMAIN p.ps |-> MLen(p.ps[j])])
    [] p.op = "select" -> p.len
    [] p.op = "zip" -> MLen(p.ps[1])
    [] p.op = "flatmap" -> p.f * MLen(p.p)
    [] p.op = "batch" -> IF p.drop THEN MLen(p.p) \div p.b ELSE CeilDiv(MLen(p.p), p.b)

\* Which component of a concatenation holds position k (1-based component).
RECURSIVE ConcatAt(_, _, _)
ConcatAt(ls, k, j) == IF k < ls[j] THEN <<j, k>> ELSE ConcatAt(ls, k - ls[j], j + 1)

RECURSIVE MAt(_, _)
MAt(p, i) ==
  CASE p.op = "src" -> p.xs[(i % Len(p.xs)) + 1]
    [] p.op = "range" -> <<p.start + (i % MLen(p)) * p.step>>
    [] p.op = "seed" -> MAt(p.p, i)
    [] p.op = "fail" -> Fails(p, MAt(p.p, i))
    [] p.op = "map" -> Affine(p, MAt(p.p, i))
    [] p.op = "mapidx" -> WithIndex(p, i, MAt(p.p, i))
    [] p.op = "rmap" -> WithRandom(p, i, MAt(p.p, i))
    [] p.op = "filter" -> LET x == MAt(p.p, i) IN IF Keeps(p, x) THEN x ELSE None
    [] p.op \in {"shuffle", "wshufm"} ->
         LET n == MLen(p.p)
             e == i \div n
         IN MAt(p.p, e * n + p.tabs[e + 1][(i % n) + 1])
    [] p.op = "slice" ->
         LET n == MLen(p.p)
             k == SliceLen(p, n)
         IN MAt(p.p, SliceStart(p, n) + (i % k) * SliceStep(p) + (i \div k) * n)
    [] p.op = "reindex" -> MAt(p.p, p.idx[(i % Len(p.idx)) + 1] + (i \div Len(p.idx)) * MLen(p.p))
    [] p.op = "repeat" -> MAt(p.p, IF p.reseed THEN i ELSE i % MLen(p.p))
    [] p.op = "concat" ->
         LET ls == [j \in DOMAIN p.ps |-> MLen(p.ps[j])]
             n == Sum(ls)
             c == ConcatAt(ls, i % n, 1)
         IN MAt(p.ps[c[1]], c[2] + (i \div n) * ls[c[1]])
    [] p.op = "select" -> MAt(p.ps[p.ds[i + 1] + 1], p.ks[i + 1])
    [] p.op = "zip" -> Combine([j \in DOMAIN p.ps |-> MAt(p.ps[j], i)])
    [] p.op = "flatmap" ->
         LET x == MAt(p.p, i \div p.f)
             ys == IF x = None THEN <<>> ELSE Fan([f |-> p.f], x)
             k == i % p.f
         IN IF x # None /\ IsErr(x) THEN x ELSE IF k < Len(ys) THEN ys[k + 1] ELSE None
    [] p.op = "batch" ->
         LET n == MLen(p.p)
             k == MLen(p)
             e == i \div k
             a == (i % k) * p.b
             b == Min2(n, a + p.b)
         IN ListOf([j \in 1..(b - a) |-> MAt(p.p, e * n + a + j - 1)])

MSeq(p) == [i \in 1..MLen(p) |-> MAt(p, i - 1)]

(***************************************************************************)
(* Iterator pipelines.                                                     *)
(***************************************************************************)
\* Groups xs into lists of b.
Groups(xs, b, drop) ==
  IF Len(xs) > 0 /\ IsErr(Last(xs))   \* the groups that are complete without it
  THEN LET k == (Len(xs) - 1) \div b
       IN Append([j \in 1..k |-> ListOf(SubSeq(xs, (j - 1) * b + 1, j * b))], Last(xs))
  ELSE LET k == IF drop THEN Len(xs) \div b ELSE CeilDiv(Len(xs), b)
       IN [j \in 1..k |-> ListOf(SubSeq(xs, (j - 1) * b + 1, Min2(j * b, Len(xs))))]

\* Round-robin interleaving over at most `cycle` simultaneously open inputs.
\* slots[s] = 0 (empty) or the number of an open input; rd[d] = elements of d
\* already taken; cur = current slot; nxt = next input to open.
RECURSIVE Robin(_, _, _, _, _, _)
Robin(seqs, slots, rd, cur, nxt, acc) ==
  LET n == Len(slots)
      step == (cur % n) + 1
      d == slots[cur]
  IN IF d # 0
     THEN IF rd[d] < Len(seqs[d])
          THEN Robin(seqs, slots, [rd EXCEPT ![d] = @ + 1], step, nxt, Append(acc, seqs[d][rd[d] + 1]))
          ELSE Robin(seqs, [slots EXCEPT ![cur] = 0], rd, step, nxt, acc)
     ELSE IF nxt <= Len(seqs)
          THEN Robin(seqs, [slots EXCEPT ![cur] = nxt], rd, cur, nxt + 1, acc)
          ELSE IF \A s \in 1..n : slots[s] = 0 THEN acc
          ELSE Robin(seqs, slots, rd, step, nxt, acc)
Interleaved(seqs, cycle) ==
  LET n == Min2(cycle, Len(seqs)) IN
  IF n = 0 THEN <<>>
  ELSE Robin(seqs, [s \in 1..n |-> 0], [d \in DOMAIN seqs |-> 0], 1, 1, <<>>)

\* A mixture of iterators following a selection of components, until a
\* selected component has ended.
RECURSIVE Mixed(_, _, _, _, _)
Mixed(seqs, sel, k, rd, acc) ==
  LET d == sel[k] + 1 IN
  IF rd[d] >= Len(seqs[d]) THEN acc
  ELSE Mixed(seqs, sel, k + 1, [rd EXCEPT ![d] = @ + 1], Append(acc, seqs[d][rd[d] + 1]))

\* The part of an iterator pipeline read by worker w of n.
RECURSIVE SlicePipe(_, _, _)
SlicePipe(p, w, n) ==
  CASE p.op = "iter" -> [p EXCEPT !.p = [op |-> "slice", p |-> p.p, start |-> w, stop |-> NoArg, step |-> n]]
    [] p.op = "file" -> [p EXCEPT !.files =
          [j \in 1..SliceLen([start |-> w, stop |-> NoArg, step |-> n], Len(p.files)) |-> p.files[w + (j - 1) * n + 1]]]
    [] p.op = "inter" -> [p EXCEPT !.ps =
          [j \in 1..SliceLen([start |-> w, stop |-> NoArg, step |-> n], Len(p.ps)) |-> p.ps[w + (j - 1) * n + 1]]]
    [] p.op \in {"zip", "mix"} -> [p EXCEPT !.ps = [j \in DOMAIN p.ps |-> SlicePipe(p.ps[j], w, n)]]
    [] p.op = "rmap" -> \* worker w uses the draws w, w + n, ...
          [p EXCEPT !.p = SlicePipe(p.p, w, n),
                    !.tab = [k \in 1..SliceLen([start |-> w, stop |-> NoArg, step |-> n], Len(p.tab)) |->
                               p.tab[w + (k - 1) * n + 1]]]
    [] OTHER -> [p EXCEPT !.p = SlicePipe(p.p, w, n)]

\* Windows of p.w elements, each permuted; p.tabs[k][s] is the permutation of
\* the k-th window if it has s elements. Before a failure only whole windows.
Windows(p, xs) ==
  LET bad == Len(xs) > 0 /\ IsErr(Last(xs))
      n == IF bad THEN ((Len(xs) - 1) \div p.w) * p.w ELSE Len(xs)
      ys == [i \in 1..n |->
              LET k == (i - 1) \div p.w        \* window
                  a == k * p.w                 \* its start
                  s == Min2(p.w, n - a)        \* its size
              IN xs[a + p.tabs[k + 1][s][i - a] + 1]]
  IN IF bad THEN Append(ys, Last(xs)) ELSE ys

RECURSIVE ISeq(_)
ISeq(p) ==
  CASE p.op = "iter" -> LET xs == MSeq(p.p) IN
                        Cut(IF p.nones THEN xs ELSE SelectSeq(xs, LAMBDA x : x # None))
    [] p.op = "given" -> p.xs
    \* files of groups of rows; at most 16 are open at the same time
    [] p.op = "file" -> Interleaved([j \in DOMAIN p.files |-> FlattenSeq(p.files[j])], 16)
    [] p.op \in {"thr", "proc", "cache", "opts", "seed", "carry"} -> ISeq(p.p)
    [] p.op = "map" -> LET xs == ISeq(p.p) IN [i \in DOMAIN xs |-> Affine(p, xs[i])]
    [] p.op = "mapidx" -> LET xs == ISeq(p.p) IN [i \in DOMAIN xs |-> WithIndex(p, i - 1, xs[i])]
    [] p.op = "rmap" -> LET xs == ISeq(p.p) IN [i \in DOMAIN xs |-> WithRandom(p, i - 1, xs[i])]
    [] p.op = "fail" -> LET xs == ISeq(p.p) IN Cut([i \in DOMAIN xs |-> Fails(p, xs[i])])
    [] p.op = "filter" -> SelectSeq(ISeq(p.p), LAMBDA x : Keeps(p, x))
    [] p.op = "flatmap" -> LET xs == ISeq(p.p) IN FlattenSeq([i \in DOMAIN xs |-> Fan(p, xs[i])])
    [] p.op = "limit" -> LET xs == ISeq(p.p) IN SubSeq(xs, 1, Min2(p.n, Len(xs)))
    [] p.op = "repeat" -> LET xs == ISeq(p.p) IN Cut(FlattenSeq([j \in 1..p.n |-> xs]))
    [] p.op = "batch" -> Groups(ISeq(p.p), p.b, p.drop)
    [] p.op = "padbatch" -> \* only the last batch lacks rows, which are filled with 7
         LET gs == Groups(ISeq(p.p), p.b, FALSE) IN
         [i \in DOMAIN gs |-> ListOf(Members(gs[i]) \o [j \in 1..(p.b - Count(gs[i])) |-> <<7>>])]
    [] p.op = "varb" -> \* a user function that makes batches of different sizes
         LET xs == ISeq(p.p) IN
         [i \in DOMAIN xs |-> ListOf([j \in 1..((xs[i][1] % p.k) + 1) |-> <<(xs[i][1] * 3 + j) % M>>])]
    [] p.op = "rebatch" -> LET xs == ISeq(p.p) IN
                           Groups(FlattenSeq([i \in DOMAIN xs |-> IF IsErr(xs[i]) THEN <<xs[i]>> ELSE Members(xs[i])]), p.b, p.drop)
    [] p.op = "wshuf" -> Windows(p, ISeq(p.p))
    [] p.op = "zip" ->
         LET ss == [j \in DOMAIN p.ps |-> ISeq(p.ps[j])]
             n == FoldLeft(LAMBDA a, s : Min2(a, Len(s)), 100000, ss)
             zs == [i \in 1..n |-> Combine([j \in DOMAIN ss |-> ss[j][i]])]
             \* inputs are read from left to right: one that fails before the
             \* input that has ended is asked decides the outcome
             left == {j \in DOMAIN ss : Len(ss[j]) > n /\ IsErr(ss[j][n + 1])
                        /\ \A k \in 1..(j - 1) : Len(ss[k]) > n}
             \* a strict zip fails where one input ends before another
             strict == "strict" \in DOMAIN p /\ p.strict
         IN IF n > 0 /\ \E i \in 1..n : IsErr(zs[i]) THEN Cut(zs)
            ELSE IF left = {} THEN (IF strict /\ \E j \in DOMAIN ss : Len(ss[j]) > n THEN Append(zs, Err(4)) ELSE zs)
            ELSE Append(zs, ss[CHOOSE j \in left : \A k \in left : j <= k][n + 1])
    [] p.op = "mix" -> LET ss == [j \in DOMAIN p.ps |-> ISeq(p.ps[j])]
                       IN Cut(Mixed(ss, p.sel, 1, [j \in DOMAIN ss |-> 0], <<>>))
    [] p.op = "inter" -> Cut(Interleaved([j \in DOMAIN p.ps |-> ISeq(p.ps[j])], p.c))
    [] p.op = "mp" -> Cut(Interleaved([w \in 1..p.n |-> ISeq(SlicePipe(p.p, w - 1, p.n))], p.n))
    [] p.op = "mt" -> Cut(Interleaved([w \in 1..p.n |-> ISeq(SlicePipe(p.p, w - 1, p.n))], p.n))

(***************************************************************************)
(* Iterators that must be able to seek to the n-th element: every element  *)
(* they hand out stems from a fixed number of elements of one input.       *)
(***************************************************************************)
RECURSIVE MDense(_)
MDense(p) == CASE p.op \in {"src", "range"} -> TRUE
               [] p.op \in {"filter", "flatmap"} -> FALSE
               [] p.op \in {"concat", "select", "zip"} -> \A j \in DOMAIN p.ps : MDense(p.ps[j])
               [] OTHER -> MDense(p.p)
RECURSIVE CanSeek(_)
CanSeek(p) == CASE p.op = "iter" -> p.nones \/ MDense(p.p)
                [] p.op \in {"map", "mapidx", "rmap", "batch", "limit", "thr", "proc"} -> CanSeek(p.p)
                [] p.op = "inter" -> Len(p.ps) = 1 /\ CanSeek(p.ps[1])
                [] OTHER -> FALSE

(***************************************************************************)
(* Side conditions on the tables that a pipeline carries for operators     *)
(* whose result is only constrained, not determined, by the specification. *)
(***************************************************************************)
IsPerm(t) == Len(t) > 0 => {t[j] : j \in DOMAIN t} = 0..(Len(t) - 1)
=============================================================================
