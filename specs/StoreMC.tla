------------------------------- MODULE StoreMC -------------------------------
(* Every history of at most Depth operations on a store of Size members, and   *)
(* what the property says about them, stated from the history alone.           *)
EXTENDS Store, TLC, Json
CONSTANTS Depth, Size, Vals
VARIABLES disk, store, hist
vars == <<disk, store, hist>>
St(v) == [p |-> v, f |-> 7, m |-> v, c |-> v, cm |-> v, o |-> v, s |-> v]
Ops == LET I == {-1} \cup (0..Size) IN
  {[a |-> "put", i |-> i, st |-> St(v), keep |-> 1] : i \in I, v \in Vals}
  \cup {[a |-> "get", i |-> i, o |-> o] : i \in I, o \in {0, 9}}
  \cup {[a |-> "pull", i |-> i, o |-> 0] : i \in I}
  \cup {[a |-> "update", i |-> i, v |-> [c |-> 5]] : i \in I}
  \cup {[a |-> "update", i |-> i, v |-> [p |-> 6, m |-> 6]] : i \in I}
  \cup {[a |-> "bad", i |-> i] : i \in I}
  \cup {[a |-> "extract", i |-> i, keys |-> {"c", "cm"}] : i \in I}
Init == disk \in BOOLEAN /\ store = Empty(Size) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops :
             LET r == Apply(disk, Size, store, op)
             IN store' = r.store /\ hist' = Append(hist, [op |-> op, ok |-> r.ok, ret |-> r.ret])
        /\ disk' = disk
Spec == Init /\ [][Next]_vars

(* ---- the property, from the history ---- *)
Hits(h, i) == h.op.i = i \/ (h.op.i = -1 /\ i > 0)
RECURSIVE Expect(_, _)      \* what member i must hold after history h
Expect(h, i) ==
  IF h = <<>> THEN <<>>
  ELSE LET x == h[Len(h)]
           b == Expect(SubSeq(h, 1, Len(h) - 1), i)
       IN IF ~Hits(x, i) THEN b
          ELSE CASE x.op.a = "put" -> <<x.op.st>>
                 [] x.op.a = "pull" /\ x.ok -> <<>>
                 [] x.op.a = "update" /\ x.ok -> <<Override(b[1], x.op.v)>>
                 [] OTHER -> b
Prev == SubSeq(hist, 1, Len(hist) - 1)
Last1 == hist[Len(hist)]
AllOk == \A k \in 1..Len(hist) : hist[k].ok
LastWriteWins == AllOk => \A i \in 0..Size : store[i] = Expect(hist, i)
Single == \A i \in 0..Size : Len(store[i]) <= 1
EmptyRefused == Len(hist) > 0 /\ Last1.op.i >= 0 /\ Last1.op.a # "put" /\ AllOk =>
                  Expect(Prev, Last1.op.i) # <<>>
ReadsPure == [][\A op \in Ops : (Len(hist') > Len(hist) /\ hist'[Len(hist')].op = op /\ op.a \in {"get", "extract", "bad"})
                   => store' = store]_vars
Isolated == [][LET x == hist'[Len(hist')].op IN \A i \in 0..Size : ~Hits([op |-> x], i) => store'[i] = store[i]]_vars
Emit == Len(hist) = Depth => PrintT(<<"SCEN", ToJson([disk |-> disk, ops |-> [k \in 1..Len(hist) |-> hist[k].op]])>>)
=============================================================================
