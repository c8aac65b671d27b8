------------------------------ MODULE StoreTrace ------------------------------
(* Recorded calls on the real repositories against Store.tla. *)
EXTENDS Store, TraceLib
VARIABLE store
vars == <<tid, l, store>>
C == Traces[tid].cfg
Init == TInit /\ store = Empty(Traces[tid].cfg.size)
OpOf(e) == IF e.a = "extract" THEN [e EXCEPT !.keys = RangeOf(@)] ELSE e
Next == /\ More
        /\ Chk("not a store operation", E.a \in {"put", "get", "pull", "update", "bad", "extract"})
        /\ LET r == Apply(C.disk, C.size, store, OpOf(E))
           IN /\ ChkEq("accepted", E.ok, r.ok)
              /\ r.ok /\ E.a \in {"get", "pull", "extract"} => ChkEq("returned", E.ret, r.ret)
              /\ ChkEq("stored afterwards", E.after, [k \in 1..(C.size + 1) |->
                         IF r.store[k - 1] = <<>> THEN <<>> ELSE <<CellTop(r.store[k - 1])>>])
              /\ ~E.peeked \/ ChkEq("checkpoints on disk", E.files, [k \in 1..(C.size + 1) |->
                         IF OnDisk(C.disk, k - 1) THEN [j \in 1..Len(r.store[k - 1]) |-> r.store[k - 1][j].s] ELSE <<>>])
              /\ store' = r.store
        /\ Adv
Spec == Init /\ [][Next]_vars
=============================================================================
