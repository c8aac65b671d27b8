----------------------------- MODULE PredictiveMC -----------------------------
(* Statistics computed batch by batch over devices against those of the whole     *)
(* data set; running sums against mixtures; credible and conformal sets.          *)
EXTENDS Predictive, TLC, Json
CONSTANTS N, K, Ds, MaxDraws, Part
VARIABLES left, rows, ens, D, draws, part, sum, sq, x
vars == <<left, rows, ens, D, draws, part, sum, sq, x>>
Val(k, i) == 10 * k + i
Stat(i) == PSum([s \in 1..Len(draws) |-> Val(draws[s], i)])
Data == [i \in 1..N |-> i]
Seqs(S, n) == UNION {[1..m -> S] : m \in 1..n}

InitB == /\ Part = "batch" /\ left = N /\ rows = <<>> /\ D \in Ds /\ draws \in [1..MaxDraws -> 1..K] /\ ens = [s \in 1..MaxDraws |-> <<>>] /\ part = <<>>
         /\ sum = 0 /\ sq = 0 /\ x = <<>>
Batch == /\ Part = "batch"
         /\ \E b \in 1..left : /\ b % D = 0
              /\ LET pts == SubSeq(Data, N - left + 1, N - left + b)
                     sh == Shard(pts, D)
                 IN /\ rows' = rows \o UnshardRows([e \in 1..D |-> [j \in 1..Len(sh[e]) |-> Stat(sh[e][j])]])
                    /\ LET u == UnshardDraws([e \in 1..D |-> [s \in 1..Len(draws) |-> [j \in 1..Len(sh[e]) |-> Val(draws[s], sh[e][j])]]])
                       IN ens' = [s \in 1..Len(draws) |-> ens[s] \o u[s]]
              /\ left' = left - b /\ part' = Append(part, b)
         /\ UNCHANGED <<D, draws, sum, sq, x>>
OneRowEach == Part = "batch" => rows = [i \in 1..(N - left) |-> Stat(i)]
DrawsWhole == Part = "batch" => \A s \in 1..Len(draws) : ens[s] = [i \in 1..(N - left) |-> Val(draws[s], i)]
(* Flattening device and draw axes alike would only be right for one draw or device. *)
FlattenWrong == Part = "batch" /\ D > 1 /\ Len(draws) > 1 /\ N >= D =>
  LET sh == Shard(Data, D)
      a == [e \in 1..D |-> [s \in 1..Len(draws) |-> [j \in 1..Len(sh[e]) |-> Val(s, sh[e][j])]]]
  IN SubSeq(FlattenFirst(a), 1, Len(draws)) # UnshardDraws(a)

(* Running sums over draws <<m, v>>. *)
InitM == /\ Part = "mix" /\ draws = <<>> /\ sum = 0 /\ sq = 0 /\ left = 0 /\ rows = <<>> /\ ens = <<>> /\ D = 1 /\ part = <<>> /\ x = <<>>
Draw == /\ Part = "mix" /\ Len(draws) < MaxDraws
        /\ \E m \in {0, 1, 3, 4}, v \in {1, 2} : /\ draws' = Append(draws, <<m, v>>) /\ sum' = sum + m /\ sq' = sq + m * m
        /\ UNCHANGED <<left, rows, ens, D, part, x>>
n == Len(draws)
Ms == [s \in 1..n |-> draws[s][1]]
Vs == [s \in 1..n |-> draws[s][2]]
EpiN == n * sq - sum * sum                       \* n^2 times the variance of the means
RunningIsMixture == Part = "mix" /\ n > 0 =>
  n * EpiN = PSum([s \in 1..n |-> (n * Ms[s] - PSum(Ms)) * (n * Ms[s] - PSum(Ms))])
EpiNonNeg == Part = "mix" => EpiN >= 0
OneDrawNoEpi == Part = "mix" /\ n = 1 => EpiN = 0
AllEqualNoEpi == Part = "mix" /\ (\A s \in 1..n : Ms[s] = Ms[1]) => EpiN = 0
(* total variance of the mixture = mean of the variances + variance of the means *)
TotalIsSum == Part = "mix" /\ n > 0 => n * PSum([s \in 1..n |-> Vs[s] + Ms[s] * Ms[s]]) - sum * sum = n * PSum(Vs) + EpiN
SpreadIsEpi == Part = "mix" /\ n > 0 => PAbs(SpreadOf([s \in 1..n |-> 100000 * Ms[s]]) * n * n - 10000 * EpiN) <= 100 * n * n

(* Label sets. *)
Grid == {p \in [1..3 -> {0, 200000, 300000, 500000, 600000, 800000, 1000000}] : PSum(p) = 1000000}
InitS == /\ Part = "sets" /\ x \in Grid /\ left = 0 /\ rows = <<>> /\ ens = <<>> /\ D = 1 /\ draws = <<>> /\ part = <<>> /\ sum = 0 /\ sq = 0
Lists == {ls \in Seqs(1..3, 3) : \A a, b \in 1..Len(ls) : a # b => ls[a] # ls[b]}
Cred(err) == {ls \in Lists : IsCredible(x, ls, err, 0)}
Errs == {0, 50000, 250000, 450000, 750000, 1000000}
CredExists == Part = "sets" => \A e \in Errs : Cred(e) # {} /\ \A a, b \in Cred(e) : Len(a) = Len(b)
CredMonotone == Part = "sets" => \A e, f \in Errs : e <= f => \A a \in Cred(e), b \in Cred(f) : Len(a) >= Len(b)
CredMode == Part = "sets" => \A e \in Errs : \A a \in Cred(e) : \A j \in 1..3 : x[a[1]] >= x[j]
ZeroErrAll == Part = "sets" => \A a \in Cred(0) : Len(a) = 3
(* Conformal sets grow when the error falls; everything is in at zero, nothing at one. *)
Tr == <<<<100000, 500000, 900000>>, <<300000, 300000, 300000>>>>
Confs(en) == {j \in 1..3 : MustBeIn(<<x[j], 1000000 - x[j]>>, Tr, 3, en, 10, 0)}
ConfMonotone == Part = "sets" => \A e, f \in {0, 1, 3, 6, 10} : e <= f => Confs(f) \subseteq Confs(e)
ConfEnds == Part = "sets" => Confs(0) = 1..3 /\ Confs(10) = {}

Init == InitB \/ InitM \/ InitS
Next == Batch \/ Draw
Spec == Init /\ [][Next]_vars
Emit == Part = "batch" /\ left = 0 /\ draws = [s \in 1..MaxDraws |-> 1] => PrintT(<<"SCEN", ToJson([part |-> part, d |-> D])>>)

ASSUME \A p \in {1000000, 999000, 700000, 500000, 100000, 20000} : Ln(p) <= 0
ASSUME PAbs(Ln(500000) + 6931) <= 3 /\ PAbs(Ln(100000) + 23026) <= 4 /\ PAbs(Ln(900000) + 1054) <= 3
ASSUME PAbs(Entropy(<<500000, 500000>>) - 6931) <= 3 /\ Entropy(<<1000000, 0>>) = 0 /\ PAbs(Entropy(<<200000, 300000, 500000>>) - 10297) <= 4
ASSUME QuantileOf(<<30, 10, 20>>, 500) = 20 /\ QuantileOf(<<30, 10, 20>>, 250) = 15 /\ QuantileOf(<<30, 10, 20>>, 1000) = 30
=============================================================================
