----------------------------- MODULE SourceTrace ----------------------------
(***************************************************************************)
(* Trace specification of sources (C28): random access sources have the    *)
(* records they were made of, at their index and nowhere else; readers of  *)
(* files deliver every record once, in order, from any saved position.     *)
(* Numbers of large ranges are pairs (h, l) that stand for h * B + l, with *)
(* a B that TLC cannot represent.                                          *)
(***************************************************************************)
EXTENDS Pipe, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, verdict, tr, ref, pos, saved
vars == <<tid, l, verdict, tr, ref, pos, saved>>
View == <<tid, l, verdict>>

\* Records of a file; of a list of files, of which up to 16 are read in turn.
Records(t) == IF Len(t.files) = 1 THEN FlattenSeq(t.files[1])
              ELSE Interleaved([j \in DOMAIN t.files |-> FlattenSeq(t.files[j])], 16)

Init == /\ LET ts == Traces IN \E k \in DOMAIN ts : tid = k /\ tr = ts[k]
        /\ ref = CASE tr.k = "file" -> Records(tr) [] tr.k = "list" -> tr.xs [] OTHER -> <<>>
        /\ l = 1 /\ verdict = "run" /\ pos = 0 /\ saved = <<>>

(* ---- ranges ---------------------------------------------------------- *)
CeilQuot(a, b) == IF b > 0 THEN -((-a) \div b) ELSE -(a \div (-b))
Size == LET dh == tr.stop[1] - tr.start[1]
            dl == tr.stop[2] - tr.start[2]
            s == IF tr.step[1] # 0 THEN tr.step[1] ELSE tr.step[2]
        IN CASE tr.step[1] # 0 -> <<0, s * dh + (IF s * dl > 0 THEN 1 ELSE 0)>>
             [] s \in {1, -1} -> <<s * dh, s * dl>>
             [] OTHER -> <<0, CeilQuot(dl, s)>>
Neg(p) == p[1] < 0 \/ (p[1] = 0 /\ p[2] < 0)
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
\* The element at i: i is small, or the step is 1 or -1.
At(i) == IF i[1] = 0 THEN <<tr.start[1] + i[2] * tr.step[1], tr.start[2] + i[2] * tr.step[2]>>
         ELSE <<tr.start[1] + i[1] * tr.step[2], tr.start[2] + i[2] * tr.step[2]>>

RangeVerdict(e) ==
  CASE e.e = "make" -> IF e.r = "ok" \/ Neg(Size) THEN "ok" ELSE "a range could not be made"
    [] e.e = "len" -> IF e.n = (IF Neg(Size) THEN <<0, 0>> ELSE Size) THEN "ok" ELSE "wrong length"
    [] e.e = "get" -> LET in == ~Neg(e.i) /\ Less(e.i, Size) IN
         IF in THEN IF e.r = "ok" /\ e.x = At(e.i) THEN "ok" ELSE "wrong element of a range"
         ELSE IF e.r = "err" THEN "ok" ELSE "an element outside of the range"

(* ---- random access ---------------------------------------------------- *)
ListVerdict(e) ==
  CASE e.e = "len" -> IF e.n = Len(ref) THEN "ok" ELSE "wrong length"
    [] e.e = "get" ->
         IF e.i \in 0..Len(ref) - 1
         THEN IF e.r = "ok" /\ e.x = ref[e.i + 1] THEN "ok" ELSE "wrong record"
         ELSE IF e.r = "err" THEN "ok"
         ELSE IF e.i < 0 /\ e.i >= -Len(ref) /\ e.x = ref[Len(ref) + e.i + 1] THEN "ok"  \* as of Python lists
         ELSE "a record that does not exist"
    [] e.e = "gets" ->
         IF Len(e.x) = Len(e.i) /\ \A k \in DOMAIN e.i : e.x[k] = ref[e.i[k] + 1] THEN "ok" ELSE "wrong records"

(* ---- readers ---------------------------------------------------------- *)
FileVerdict(e) ==
  CASE e.e \in {"open", "save", "restore"} -> IF e.r = "ok" THEN "ok" ELSE "failed: " \o e.what
    [] e.e = "next" ->
         IF pos < Len(ref)
         THEN IF e.r = "ok" THEN (IF e.x = ref[pos + 1] THEN "ok" ELSE "records were lost, repeated or reordered")
              ELSE IF e.r = "end" THEN "records were lost" ELSE "failed: " \o e.what
         ELSE IF tr.cut = 1 THEN (IF e.r = "err" THEN "ok" ELSE "a broken file was not noticed")
         ELSE IF e.r = "end" THEN "ok" ELSE IF e.r = "ok" THEN "a record that does not exist" ELSE "failed: " \o e.what

Verdict(e) == CASE tr.k = "file" -> FileVerdict(e) [] tr.k = "list" -> ListVerdict(e) [] OTHER -> RangeVerdict(e)

Move(e) == /\ pos' = CASE e.e = "open" -> 0
                       [] e.e = "next" /\ e.r = "ok" -> pos + 1
                       [] e.e = "restore" -> saved[e.s]
                       [] OTHER -> pos
           /\ saved' = IF e.e = "save" THEN Append(saved, pos) ELSE saved

Step == /\ verdict = "run"
        /\ l <= Len(tr.ev)
        /\ LET e == tr.ev[l]
               v == Verdict(e)
           IN IF v = "ok"
              THEN l' = l + 1 /\ Move(e) /\ UNCHANGED <<tid, verdict, tr, ref>>
              ELSE /\ verdict' = v
                   /\ PrintT(<<"REJECT", tid, l, v, e.e>>)
                   /\ UNCHANGED <<tid, l, tr, ref, pos, saved>>

Done == /\ verdict = "run"
        /\ l > Len(tr.ev)
        /\ verdict' = "accept"
        /\ PrintT(<<"ACCEPT", tid>>)
        /\ UNCHANGED <<tid, l, tr, ref, pos, saved>>

Next == Step \/ Done
Spec == Init /\ [][Next]_vars

TypeOK == l \in 1..(Len(tr.ev) + 1)
=============================================================================
