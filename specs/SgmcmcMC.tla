------------------------------ MODULE SgmcmcMC ------------------------------
(* The samplers' dynamics under a constant gradient, all decays and schedules.  *)
EXTENDS Sgmcmc, TLC, Json
CONSTANTS MaxT
VARIABLES k, sch, cyc, d, s, m, V, var, moves
vars == <<k, sch, cyc, d, s, m, V, var, moves>>
Scheds == {[kind |-> kd, a |-> a, b |-> b, n |-> n, w |-> w] :
             kd \in {"constant", "cosine", "poly", "burnin", "cyclical"}, a \in {1600, 8000}, b \in {0, 400, 2500}, n \in {1, 2, 3, 4, 6, 12}, w \in {0, 2}}
Legal(q) == /\ q.kind = "poly" => q.b > 0
            /\ q.kind \in {"constant", "poly"} => q.n = 1
            /\ q.kind # "cyclical" => q.w = 0
            /\ q.kind \in {"constant", "cosine", "cyclical"} => q.b = 0
Cycles == {[kind |-> "csgld", n |-> 1, thin |-> 1, burnin |-> 0, cycle |-> cy, rnum |-> r, rden |-> 4] : cy \in {2, 3, 4, 6}, r \in 0..4}
Init == /\ k \in {"sghmc", "csgld"}
        /\ IF k = "sghmc" THEN sch \in {q \in Scheds : Legal(q)} /\ cyc = [cycle |-> 1] /\ d \in {0, 4, 7, 8}
           ELSE cyc \in Cycles /\ sch = [kind |-> "cyclical", a |-> 1600, b |-> 0, n |-> cyc.cycle, w |-> 0] /\ d = 0
        /\ s = 0 /\ m = 0 /\ V = 0 /\ var = 0 /\ moves = <<>>
Next == /\ s < MaxT
        /\ s' = s + 1
        /\ IF k = "sghmc" THEN m' = Momentum(d, m, 1000, 64) /\ V' = NoiseVar(d, V, 1000) /\ var' = V'
           ELSE m' = DriftC(Size(sch, s), 1000, 1000) /\ V' = 0 /\ var' = NoiseC(cyc, s, Size(sch, s), 1000)
        /\ moves' = Append(moves, [ss |-> Size(sch, s), v |-> var', m |-> m'])
        /\ UNCHANGED <<k, sch, cyc, d>>
Spec == Init /\ [][Next]_vars
Last1 == moves[Len(moves)]
SizesInRange == s > 0 => Last1.ss >= 0 /\ Last1.ss <= (IF sch.kind = "poly" THEN sch.a * 10 ELSE MaxO(sch.a, sch.b))
(* The momentum noise grows towards the stationary variance 2/(1+d), never past. *)
Stationary == k = "sghmc" => V * (8 + d) <= 16 * U + 64
FullFriction == k = "sghmc" /\ d = 8 => V = 0
NoMemory == k = "sghmc" /\ d = 0 /\ s > 0 => m = U /\ V = 2 * U
NoiseOnlyWhenSampling == k = "csgld" /\ s > 0 => (var = 0 <=> (Exploring(cyc, s) \/ Last1.ss = 0))
PerCycle == k = "csgld" /\ s > 0 /\ s % cyc.cycle = 0 =>
              Cardinality({i \in 1..s : Exploring(cyc, i)}) * 4 >= cyc.rnum * s
KeptAreNoisy == k = "csgld" /\ s > 0 => \A i \in 1..s : Selected(cyc, i) => moves[i].v > 0 \/ moves[i].ss = 0
Emit == s = MaxT => PrintT(<<"SCEN", ToJson([k |-> k, sch |-> sch, cyc |-> cyc, d |-> d])>>)
=============================================================================
