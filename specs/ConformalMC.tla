----------------------------- MODULE ConformalMC -----------------------------
(* Every small calibration set: the finite-sample coverage guarantee (with     *)
(* n+1 exchangeable scores, at least a 1-error fraction of the positions are    *)
(* covered when taken as the test point) and monotonicity in the error.        *)
EXTENDS Conformal, TLC, Json
CONSTANTS MaxN, MaxS, Den
VARIABLES s, num, done
Scores == UNION {[1..n -> 0..MaxS] : n \in 2..(MaxN + 1)}
Init == s \in Scores /\ num \in 0..Den /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED <<s, num>>
Spec == Init /\ [][Next]_<<s, num, done>>
N1 == Len(s)
But(i) == [k \in 1..(N1 - 1) |-> IF k < i THEN s[k] ELSE s[k + 1]]
CoverSet == Den * Cardinality({i \in 1..N1 : Conforms(But(i), s[i], num, Den)}) >= (Den - num) * N1
CoverInt == Defined(N1 - 1, num, Den) =>
   Den * Cardinality({i \in 1..N1 : (N1 - 1) * s[i] <= ConfQuantN(But(i), num, Den)}) >= (Den - num) * N1
NotVacuous == num = Den => \A i \in 1..N1 : ~Conforms(But(i), s[i], num, Den)
Nested == \A m \in num..Den : \A v \in 0..MaxS :
   Conforms(But(1), v, m, Den) => Conforms(But(1), v, num, Den)
(* the more conforming a label, the more it is in the set *)
Favours == \A v \in 1..MaxS : Conforms(But(1), v, num, Den) => Conforms(But(1), v - 1, num, Den)
QMono == \A m \in num..Den : (Defined(N1 - 1, num, Den) /\ Defined(N1 - 1, m, Den)) =>
   ConfQuantN(But(1), m, Den) <= ConfQuantN(But(1), num, Den)
Emit == done => PrintT(<<"SCEN", ToJson([s |-> But(1), t |-> s[1], num |-> num, den |-> Den])>>)
=============================================================================
