-------------------------------- MODULE Chain --------------------------------
(* Which states of a stochastic-gradient Markov chain become posterior samples. *)
(* A schedule c is [kind, n, thin, burnin, cycle, rnum, rden]; steps count from  *)
(* 1; the exploration ratio of a cycle is rnum/rden.                             *)
EXTENDS Integers, Sequences, FiniteSets
Phase(c, s) == (s - 1) % c.cycle
Exploring(c, s) == Phase(c, s) * c.rden < c.rnum * c.cycle
Selected(c, s) == IF c.kind = "sghmc" THEN s > c.burnin /\ (s - c.burnin) % c.thin = 0
                  ELSE ~Exploring(c, s) /\ Phase(c, s) % c.thin = 0
AllSelected(c, t) == {s \in 1..t : Selected(c, s)}
(* Enough of them within t steps? *)
Enough(c, t) == Cardinality(AllSelected(c, t)) >= c.n
(* The k-th step kept. *)
RECURSIVE Nth(_, _, _)
Nth(c, k, from) == IF Selected(c, from) THEN IF k = 1 THEN from ELSE Nth(c, k - 1, from + 1) ELSE Nth(c, k, from + 1)
Kept(c) == [k \in 1..c.n |-> Nth(c, k, 1)]
(* One step of the sampler. *)
Keep(c, kept, s) == IF Len(kept) < c.n /\ Selected(c, s) THEN Append(kept, s) ELSE kept
=============================================================================
