----------------------------- MODULE LoaderTrace -----------------------------
(* Binds Loader.tla to recorded executions of fortuna.data.loader.             *)
EXTENDS Loader, TraceLib
VARIABLES bs,    \* meaning of the loader currently at hand
          kind   \* "data" | "inputs" | "targets"
vars == <<tid, l, bs, kind>>

Init == TInit /\ bs = <<>> /\ kind = "data"

RECURSIVE Distinct(_)
Distinct(s) == Cardinality({s[i] : i \in 1..Len(s)})
Stable(e) == \A p \in 1..Len(e.passes) : e.passes[p] = e.passes[1]
Sizes(e, w) == /\ ChkEq("size", e.size, Len(Flat(w)))
               /\ ChkEq("len", e.len, Len(w))
Seen(e, w) == /\ ChkEq("batches", e.passes[1], w)
              /\ Chk("second pass differs", Stable(e))
              /\ Sizes(e, w)

(* A source.  With shuffling the order is any one permutation, the same on     *)
(* every pass; without it is the order of the data.                            *)
Src == /\ Is("src")
       /\ LET r == Rows(E.n)
              w == ViewOf(Batches(r, E.b), E.kind)
              v(x) == ViewOf(<<x>>, E.kind)[1]
          IN IF E.shuffle
             THEN /\ Chk("shuffled rows are not a permutation", Perm(Flat(E.passes[1]), v(r)))
                  /\ ChkEq("batch sizes", [j \in 1..Len(E.passes[1]) |-> Len(E.passes[1][j])],
                                          [j \in 1..Len(w) |-> Len(w[j])])
                  /\ Chk("not shuffled", E.n < 8 \/ Flat(E.passes[1]) # v(r))
                  /\ Seen(E, E.passes[1])
             ELSE Seen(E, w)
       /\ bs' = E.passes[1] /\ kind' = E.kind /\ Adv

Meta == /\ Is("meta")
        /\ ChkEq("input shape", E.shape, E.want_shape)
        /\ ChkEq("unique labels", E.nlab, Cardinality({Flat(bs)[i][2] : i \in 1..Len(Flat(bs))}))
        /\ UNCHANGED <<bs, kind>> /\ Adv

ChopE == /\ Is("chop") /\ Seen(E, Chop(bs, E.k))
         /\ bs' = Chop(bs, E.k) /\ kind' = kind /\ Adv
SplitE == /\ Is("split")
          /\ Seen(E.A, SplitA(bs, E.k)) /\ Seen(E.B, SplitB(bs, E.k))
          /\ bs' = (IF E.pick = "A" THEN SplitA(bs, E.k) ELSE SplitB(bs, E.k))
          /\ kind' = kind /\ Adv
MapE == /\ Is("map") /\ Seen(E, MapT(bs, E.t, E.k))
        /\ bs' = MapT(bs, E.t, E.k) /\ kind' = kind /\ Adv
ViewE == /\ Is("view") /\ Seen(E, ViewOf(bs, E.which))
         /\ bs' = ViewOf(bs, E.which) /\ kind' = E.which /\ Adv
PeekE == /\ Is("peek") /\ Seen(E, ViewOf(bs, E.which)) /\ UNCHANGED <<bs, kind>> /\ Adv
ShapeE == /\ Is("inshape") /\ ChkEq("shape of the inputs loader", E.shape, <<2>>) /\ UNCHANGED <<bs, kind>> /\ Adv
ArrE == /\ Is("arr")
        /\ ChkEq("array", E.rows, Flat(bs))
        /\ UNCHANGED <<bs, kind>> /\ Adv

(* Random subsample: exactly k rows, every batch an in-order selection from    *)
(* one source batch, same seed same sample, and the same rows whichever view   *)
(* of the loader is sampled.                                                   *)
SampleE == /\ Is("sample")
           /\ LET w == E.passes[1] IN
              /\ ChkEq("number of samples", Len(Flat(w)), E.k)
              /\ Chk("not a selection of a source batch",
                     \A j \in 1..Len(w) : \E m \in 1..Len(bs) : IsSubSeq(w[j], bs[m]))
              /\ Chk("empty batch", \A j \in 1..Len(w) : Len(w[j]) > 0)
              /\ Seen(E, w)
              /\ ChkEq("same seed, other sample", E.again, w)
              /\ ChkEq("views sample other rows: inputs", E.inputs, ViewOf(w, "inputs"))
              /\ ChkEq("views sample other rows: targets", E.targets, ViewOf(w, "targets"))
              /\ Chk("sample ignores the seed", E.k < 8 \/ Len(Flat(bs)) < 8 \/ E.others # <<w, w, w>>)
              /\ bs' = w
           /\ kind' = kind /\ Adv

CombineE == /\ Is("combine")
            /\ LET w == IF E.how = "interpose" THEN Zip(E.parts, E.labels) ELSE ConcatL(E.parts, E.labels)
               IN Seen(E, w) /\ bs' = w
            /\ kind' = "data" /\ Adv
BadHowE == /\ Is("badhow") /\ ChkEq("unknown combination mode", E.exc, "ValueError")
           /\ UNCHANGED <<bs, kind>> /\ Adv
ChainE == /\ Is("chain")
          /\ ChkEq("chained", E.batches, Flat(E.parts))
          /\ UNCHANGED <<bs, kind>> /\ Adv

(* Device augmentation on E.dev devices: refuses batches that do not divide,   *)
(* otherwise only reshapes.                                                    *)
DeviceE == /\ Is("device")
           /\ IF Mult(bs, E.dev)
              THEN /\ ChkEq("augmentation refused", E.exc, "none")
                   /\ ChkEq("augmented rows", E.batches, bs)
                   /\ Chk("device axis", \A j \in 1..Len(E.lead) : E.lead[j] = <<E.dev, Len(bs[j]) \div E.dev>>)
              ELSE ChkEq("augmentation accepted a batch that does not divide", E.exc, "ValueError")
           /\ UNCHANGED <<bs, kind>> /\ Adv

Next == \/ Src \/ Meta \/ ChopE \/ SplitE \/ MapE \/ ViewE \/ ArrE \/ SampleE \/ CombineE
        \/ BadHowE \/ PeekE \/ ShapeE \/ ChainE \/ DeviceE
Spec == Init /\ [][Next]_vars
=============================================================================
