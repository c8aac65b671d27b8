-------------------------------- MODULE Rng --------------------------------
(* Random keys as nodes of a tree: splitting a node gives children, each the     *)
(* root of its own subtree, and a node, once used or split, yields no other      *)
(* randomness.  Whoever gets a node owns the whole subtree below it.             *)
EXTENDS Integers, Sequences, FiniteSets
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Related(a, b) == Prefix(a, b) \/ Prefix(b, a)
(* The generator keeps child 1 and hands out child 2. *)
NextState(s) == Append(s, 1)
HandedOut(s) == Append(s, 2)
=============================================================================
