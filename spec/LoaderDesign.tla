---------------------------- MODULE LoaderDesign ----------------------------
(***************************************************************************)
(* Design model of a data loader: how a shard's records are dealt to the   *)
(* workers, how the iterator visits the workers in turn, and how its state *)
(* is converted to the last index seen by every worker and back.           *)
(*                                                                         *)
(* State: cfg   the configuration (all small ones are initial states)      *)
(*        pos   records taken from each worker                             *)
(*        cyc   worker whose turn it is                                    *)
(*        gone  workers known to be exhausted                              *)
(*        done  the global indices handed out                              *)
(***************************************************************************)
EXTENDS Loader, TLC
CONSTANTS MaxN, MaxC, MaxW, MaxE

VARIABLES cfg, pos, cyc, gone, done
vars == <<cfg, pos, cyc, gone, done>>

Cfgs == [n : 1..MaxN, c : 1..MaxC, s : 0..(MaxC - 1), drop : {0, 1}, w : 0..MaxW, e : 1..MaxE, kind : {"seq", "index"}]
W == IF cfg.w = 0 THEN 1 ELSE cfg.w
TLen(f) == IF f.kind = "seq" THEN SeqLen(f.n, f.c, f.drop) ELSE IndexLen(f.n, f.s, f.c, f.drop, f.e)
L == LocalLen(TLen(cfg), cfg.s, cfg.c, cfg.drop)
Stream(w) == WorkerPositions(L, w, W)
Global(j) == j * cfg.c + cfg.s

Init == /\ cfg \in {f \in Cfgs : f.s < f.c /\ (f.kind = "seq" => f.e = 1)}
        /\ pos = [w \in 0..(MaxW + 1) |-> 0]
        /\ cyc = 0 /\ gone = {} /\ done = <<>>

Left(w) == pos[w] < Len(Stream(w))
Read == /\ Left(cyc)
        /\ done' = Append(done, Global(Stream(cyc)[pos[cyc] + 1]))
        /\ pos' = [pos EXCEPT ![cyc] = @ + 1]
        /\ cyc' = (cyc + 1) % W
        /\ UNCHANGED <<cfg, gone>>
\* the turn of an exhausted worker is skipped
Skip == /\ ~Left(cyc)
        /\ gone # 0..(W - 1)
        /\ gone' = gone \cup {cyc}
        /\ cyc' = (cyc + 1) % W
        /\ UNCHANGED <<cfg, pos, done>>

\* The saved form of the state, and back.
G == W * cfg.c
LastSeen(w) == (cfg.s - G) + w * cfg.c + pos[w] * G
Encoded == [last |-> [w \in 0..(W - 1) |-> LastSeen(w)], lw |-> cyc - 1]
DecodedPos(e, w) == (e.last[w] + G - cfg.s - w * cfg.c) \div G
DecodedCyc(e) == (e.lw + 1) % W
\* Restoring forgets which workers are exhausted; their turns are skipped again.
Restore == /\ pos' = [w \in DOMAIN pos |-> IF w < W THEN DecodedPos(Encoded, w) ELSE 0]
           /\ cyc' = DecodedCyc(Encoded)
           /\ gone' = {}
           /\ UNCHANGED <<cfg, done>>

Next == Read \/ Skip \/ Restore
Spec == Init /\ [][Next]_vars

TypeOK == cyc \in 0..(W - 1) /\ \A w \in DOMAIN pos : pos[w] >= 0
RoundTrip == /\ DecodedCyc(Encoded) = cyc
             /\ \A w \in 0..(W - 1) : DecodedPos(Encoded, w) = pos[w]
\* What was handed out is a prefix of the specified order.
InOrder ==
  LET ss == [w \in 1..W |-> [k \in DOMAIN Stream(w - 1) |-> Global(Stream(w - 1)[k])]]
  IN IsPrefix(done, RoundRobinSeq(ss))
\* The last index a worker saw is really the last one handed out by it.
LastSeenRight == \A w \in 0..(W - 1) :
  pos[w] > 0 => LastSeen(w) = Global(Stream(w)[pos[w]])
\* At the end everything was handed out, exactly once.
AllDone == gone = 0..(W - 1) =>
  /\ Len(done) = L
  /\ ToSet(done) = {Global(j) : j \in 0..(L - 1)}
\* All shards together read all indices of the sampler; an index sampler's
\* shard visits each of its records once per epoch, where the shards are even.
ShardsCover ==
  LET all == UNION {{j * cfg.c + s : j \in 0..(LocalLen(TLen(cfg), s, cfg.c, cfg.drop) - 1)} : s \in 0..(cfg.c - 1)}
      m == (TLen(cfg) \div cfg.c) * cfg.c
  IN all = 0..((IF cfg.drop = 1 THEN m ELSE TLen(cfg)) - 1)
EpochsCover ==
  cfg.kind = "index" /\ (cfg.drop = 1 \/ cfg.e = 1 \/ (cfg.n % cfg.c) = 0) =>
    LET ln == ShardLen(cfg.n, cfg.s, cfg.c, cfg.drop)
    IN /\ L = ln * cfg.e
       /\ \A k \in 0..(ln - 1) :
            Cardinality({j \in 0..(L - 1) :
               IndexKey(cfg.n, cfg.s, cfg.c, cfg.drop, Global(j)) = ShardStart(cfg.n, cfg.s, cfg.c, cfg.drop) + k}) = cfg.e
=============================================================================
