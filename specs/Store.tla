-------------------------------- MODULE Store --------------------------------
(* The state store of a posterior (TrainStateRepository and its multi-member   *)
(* versions).  A cell is the sequence of saved states, oldest step first; a    *)
(* cell in memory holds at most one.  A state is a record of abstract values   *)
(* [p params, f frozen params, m mutable, c calib params, cm calib mutable,    *)
(*  o optimizer memory, s step].  Member 0 is an explicitly given path (always *)
(* on disk); "all members" is written -1.                                      *)
EXTENDS Integers, Sequences, FiniteSets

Fields == {"p", "f", "m", "c", "cm", "o", "s"}
RECURSIVE Keep(_, _)
Keep(n, s) == IF Len(s) <= n THEN s ELSE Keep(n, Tail(s))

(* Saving at a step replaces what was saved at that or a later step; the keep  *)
(* newest survive.                                                             *)
CellPut(disk, cell, st, keep) ==
  IF ~disk THEN <<st>>
  ELSE Keep(keep, Append(SelectSeq(cell, LAMBDA x : x.s < st.s), st))
CellTop(cell) == cell[Len(cell)]
CellPop(cell) == SubSeq(cell, 1, Len(cell) - 1)
Override(st, v) == [k \in DOMAIN st |-> IF k \in DOMAIN v THEN v[k] ELSE st[k]]
Visible(st, o) == IF o = 0 THEN st ELSE [st EXCEPT !.o = o]

(* The members an operation touches, in order. *)
Targets(size, i) == IF i = -1 THEN [j \in 1..size |-> j] ELSE <<i>>
OnDisk(disk, i) == disk \/ i = 0

(* Effect of op on store: [store, ok, ret].  Members are handled in order and  *)
(* the first empty one refuses the operation.                                  *)
RECURSIVE Do(_, _, _, _)
Do(disk, store, op, ts) ==
  IF ts = <<>> THEN [store |-> store, ok |-> TRUE, ret |-> <<>>]
  ELSE LET i == Head(ts)
           cell == store[i]
           d == OnDisk(disk, i)
       IN IF op.a = "put"
          THEN Do(disk, [store EXCEPT ![i] = CellPut(d, cell, op.st, op.keep)], op, Tail(ts))
          ELSE IF cell = <<>> THEN [store |-> store, ok |-> FALSE, ret |-> <<>>]
          ELSE IF op.a = "bad" THEN [store |-> store, ok |-> FALSE, ret |-> <<>>]
          ELSE LET top == CellTop(cell)
                   new == CASE op.a = "pull" -> [store EXCEPT ![i] = CellPop(cell)]
                            [] op.a = "update" -> [store EXCEPT ![i] = CellPut(d, cell, Override(top, op.v), 1)]
                            [] OTHER -> store
                   r == CASE op.a \in {"get", "pull"} -> <<Visible(top, op.o)>>
                          [] op.a = "extract" -> <<[k \in op.keys |-> top[k]]>>
                          [] OTHER -> <<>>
                   rest == Do(disk, new, op, Tail(ts))
               IN [store |-> rest.store, ok |-> rest.ok, ret |-> r \o rest.ret]
Apply(disk, size, store, op) == Do(disk, store, op, Targets(size, op.i))
Empty(size) == [i \in 0..size |-> <<>>]
=============================================================================
