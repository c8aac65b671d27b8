------------------------------- MODULE ChainMC -------------------------------
(* Every schedule within small bounds, run step by step. *)
EXTENDS Chain, TLC, Json
CONSTANTS MaxT, MaxN
VARIABLES c, t, s, kept
vars == <<c, t, s, kept>>
Scheds == {[kind |-> "sghmc", n |-> n, thin |-> th, burnin |-> b, cycle |-> 1, rnum |-> 0, rden |-> 4] :
             n \in 1..MaxN, th \in 1..3, b \in 0..5}
     \cup {[kind |-> "csgld", n |-> n, thin |-> th, burnin |-> 0, cycle |-> cy, rnum |-> r, rden |-> 4] :
             n \in 1..MaxN, th \in 1..3, cy \in {2, 3, 4, 6}, r \in 0..3}
Init == c \in Scheds /\ t \in 1..MaxT /\ s = 0 /\ kept = <<>>
Next == s < t /\ s' = s + 1 /\ kept' = Keep(c, kept, s + 1) /\ UNCHANGED <<c, t>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Bounded == Len(kept) <= c.n
Increasing == \A i, j \in 1..Len(kept) : i < j => kept[i] < kept[j]
OnlySelected == \A i \in 1..Len(kept) : kept[i] <= s /\ Selected(c, kept[i])
AfterBurnin == c.kind = "sghmc" => \A i \in 1..Len(kept) : kept[i] > c.burnin
OnlySampling == c.kind = "csgld" => \A i \in 1..Len(kept) : ~Exploring(c, kept[i])
NoneMissed == Len(kept) = c.n \/ \A q \in AllSelected(c, s) : \E i \in 1..Len(kept) : kept[i] = q
FullIffEnough == s = t => (Len(kept) = c.n <=> Enough(c, t))
IsKept == Len(kept) = c.n => kept = Kept(c)
Spaced == c.kind = "sghmc" => \A i \in 1..Len(kept) - 1 : kept[i + 1] - kept[i] = c.thin
Emit == s = t => PrintT(<<"SCEN", ToJson([c |-> c, t |-> t])>>)
Finishes == <>(s = t)
=============================================================================
