------------------------------ MODULE Ensemble ------------------------------
(* A deep ensemble as the histories of its members: a member is the sequence of  *)
(* its start followed by the configurations it was trained with.  Training an    *)
(* ensemble is training each member alone (what MAP does), whatever the others   *)
(* are.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets
Train(h, c) == Append(h, c)
(* Configuration 0 has learning rate 0: it moves the mutables (running statistics) only. *)
Moved(h) == SelectSeq(Tail(h), LAMBDA c : c # 0)
Key(h, bn) == IF bn = 1 THEN h ELSE <<h[1]>> \o Moved(h)
Fresh(seed, nth, n) == [i \in 1..n |-> <<<<seed, nth, i>>>>]   \* nth fresh fit of a model with this seed
TrainAll(ms, c) == [i \in 1..Len(ms) |-> Train(ms[i], c)]
Put(disk, p, ms) == [disk EXCEPT ![p] = ms]
PutOne(disk, p, i, h) == [disk EXCEPT ![p][i] = h]
(* What the ensemble holds: members in memory, or a directory it was loaded from. *)
Members(de, disk) == IF de.bound = "" THEN de.mem ELSE disk[de.bound]
Start(h) == h[1]
=============================================================================
