----------------------------- MODULE ElementSpec -----------------------------
(***************************************************************************)
(* Specifications of elements (C29). Elements and specifications are trees *)
(* (Trees.tla) whose leaves have a shape v and a type d; a dimension of a  *)
(* specification may be unknown (None).                                    *)
(*                                                                         *)
(* Pipelines are                                                           *)
(*   [op |-> "range", n]          integers                                 *)
(*   [op |-> "keep", p]           anything that passes elements on         *)
(*   [op |-> "map", p, k]         transformations that state their effect  *)
(*   [op |-> "batch"|"cbatch", p, b, drop]  a batch dimension in front, or *)
(*                                (custom batching function) at the end    *)
(*   [op |-> "rebatch", p, b, drop]                                        *)
(*   [op |-> "zip", ps], [op |-> "first", ps]  (mixtures, concatenations,  *)
(*                                interleavings: of equal elements)        *)
(***************************************************************************)
EXTENDS Trees

None == -1
\* A dimension that may be stated as b or as unknown.
Either(b) == -1000 - b
Array(s, d) == [t |-> "l", v |-> s, d |-> d]
Tuple(cs) == [t |-> "s", n |-> "tuple", c |-> cs]
Dict(ks, cs) == [t |-> "d", n |-> "dict", k |-> ks, c |-> cs]

\* Applies a change to all leaves: ch = <<"front", n>>, <<"back", n>>,
\* <<"first", n>> or <<"type", d>>.
ChangeLeaf(x, ch) ==
  CASE ch[1] = "front" -> [x EXCEPT !.v = <<ch[2]>> \o @]
    [] ch[1] = "back" -> [x EXCEPT !.v = Append(@, ch[2])]
    [] ch[1] = "first" -> [x EXCEPT !.v = <<ch[2]>> \o Tail(@)]
    [] ch[1] = "type" -> [x EXCEPT !.d = ch[2]]
RECURSIVE Change(_, _)
Change(t, ch) == IF IsLeaf(t) THEN ChangeLeaf(t, ch)
                 ELSE [t EXCEPT !.c = [i \in DOMAIN t.c |-> Change(t.c[i], ch)]]

\* What the transformations do to an element or a specification.
Mapped(t, k) ==
  CASE k = "float" -> Change(t, <<"type", "float32">>)
    [] k = "wrap" -> Dict(<<1, 0>>, <<t, Array(<<2>>, "int32")>>)
    [] k = "axis" -> Change(t, <<"back", 3>>)
    [] k = "pair" -> Tuple(<<t, t>>)
    [] k = "pick" -> IF IsLeaf(t) THEN t ELSE Child(t, Labels(t)[1])

RECURSIVE SpecOf(_)
SpecOf(p) ==
  CASE p.op = "range" -> Array(<<>>, "int64")
    [] p.op = "keep" -> SpecOf(p.p)
    [] p.op = "map" -> Mapped(SpecOf(p.p), p.k)
    [] p.op = "batch" -> Change(SpecOf(p.p), <<"front", IF p.drop = 1 THEN p.b ELSE None>>)
    [] p.op = "cbatch" -> Change(SpecOf(p.p), <<"back", IF p.drop = 1 THEN p.b ELSE None>>)
    [] p.op = "rebatch" -> Change(SpecOf(p.p), <<"first", IF p.drop = 1 THEN p.b ELSE Either(p.b)>>)
    [] p.op = "zip" -> Tuple([j \in DOMAIN p.ps |-> SpecOf(p.ps[j])])
    [] p.op = "first" -> SpecOf(p.ps[1])

\* Whether a stated dimension is the expected one.
SameDim(want, got) == got = want \/ (want <= -1000 /\ got \in {None, -1000 - want})
RECURSIVE Stated(_, _)
Stated(want, got) ==
  IF want.t = "l" \/ got.t = "l"
  THEN /\ want.t = got.t /\ want.d = got.d /\ Len(want.v) = Len(got.v)
       /\ \A i \in DOMAIN want.v : SameDim(want.v[i], got.v[i])
  ELSE /\ want.t = got.t /\ want.n = got.n /\ Len(want.c) = Len(got.c) /\ Labels(want) = Labels(got)
       /\ \A x \in Range(Labels(want)) : Stated(Child(want, x), Child(got, x))

\* Whether a specification describes an element.
RECURSIVE Admits(_, _)
Admits(s, x) ==
  IF s.t = "l" \/ x.t = "l"
  THEN /\ s.t = x.t /\ s.d = x.d /\ Len(s.v) = Len(x.v)
       /\ \A i \in DOMAIN s.v : s.v[i] = None \/ s.v[i] = x.v[i]
  ELSE /\ s.t = x.t /\ s.n = x.n /\ Len(s.c) = Len(x.c) /\ Labels(s) = Labels(x)
       /\ \A k \in Range(Labels(s)) : Admits(Child(s, k), Child(x, k))
=============================================================================
