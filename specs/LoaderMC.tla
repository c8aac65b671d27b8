------------------------------ MODULE LoaderMC ------------------------------
(* Exhaustive check of the loader algebra: every pipeline of at most MaxOps    *)
(* derivations over every small source; also the generator of the pipelines    *)
(* that the harness replays on the real loaders.                               *)
EXTENDS Loader, TLC, Json, IOUtils
CONSTANTS MaxN, MaxB, MaxOps
VARIABLES src, bs, ops, prev

vars == <<src, bs, ops, prev>>
Op(o) == ops' = Append(ops, o) /\ src' = src /\ prev' = bs

Init == /\ src \in [n : 1..MaxN, b : 0..MaxB]
        /\ bs = Batches(Rows(src.n), src.b)
        /\ prev = bs /\ ops = <<>>

ChopA  == \E d \in 1..3 : bs' = Chop(bs, d) /\ Op([op |-> "chop", k |-> d])
SplA   == \E n \in 0..MaxN : bs' = SplitA(bs, n) /\ Op([op |-> "splitA", k |-> n])
SplB   == \E n \in 0..MaxN : bs' = SplitB(bs, n) /\ Op([op |-> "splitB", k |-> n])
MapA   == \E t \in {"keepeven", "skipodd", "rev", "shift"} :
              \E s0 \in 0..1 : bs' = MapT(bs, t, s0) /\ Op([op |-> t, k |-> s0])
Next == Len(ops) < MaxOps /\ (ChopA \/ SplA \/ SplB \/ MapA)
Spec == Init /\ [][Next]_vars

LastOp == ops[Len(ops)]
SourceOK == ops = <<>> => PartitionOK(bs, src.n, src.b)
(* split loses and duplicates nothing and keeps order *)
SplitLossless == ops # <<>> /\ LastOp.op \in {"splitA", "splitB"} =>
   /\ Flat(SplitA(prev, LastOp.k)) \o Flat(SplitB(prev, LastOp.k)) = Flat(prev)
   /\ Len(Flat(SplitA(prev, LastOp.k))) = Min2(LastOp.k, Len(Flat(prev)))
ChopOK == ops # <<>> /\ LastOp.op = "chop" =>
   /\ Mult(bs, LastOp.k)
   /\ Len(Flat(prev)) - Len(Flat(bs)) < LastOp.k * Len(prev) + 1
   /\ Chop(bs, LastOp.k) = bs
NoEmptyBatch == \A j \in 1..Len(bs) : Len(bs[j]) > 0
(* views commute with every derivation that does not look at the rows *)
ViewsCommute == ops # <<>> /\ LastOp.op \in {"chop", "splitA", "splitB", "rev", "skipodd"} =>
   \A v \in {"inputs", "targets"} :
     LET p == ViewOf(prev, v) IN
     ViewOf(bs, v) = CASE LastOp.op = "chop" -> Chop(p, LastOp.k)
                       [] LastOp.op = "splitA" -> SplitA(p, LastOp.k)
                       [] LastOp.op = "splitB" -> SplitB(p, LastOp.k)
                       [] OTHER -> MapT(p, LastOp.op, LastOp.k)
Pairing == (\A i \in 1..Len(ops) : ops[i].op # "shift") =>
  \A j \in 1..Len(bs) : \A i \in 1..Len(bs[j]) : bs[j][i][2] - bs[j][i][1] = 100
Emit == Len(ops) = MaxOps => PrintT(<<"SCEN", ToJson([src |-> src, ops |-> ops])>>)
Inv == SourceOK /\ SplitLossless /\ ChopOK /\ NoEmptyBatch /\ ViewsCommute /\ Pairing
=============================================================================
