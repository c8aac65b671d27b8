------------------------------ MODULE Predictive ------------------------------
(* What a predictive distribution is: an equal-weight mixture of the likelihoods   *)
(* of n posterior draws, evaluated point by point, in batches, over devices.       *)
(*                                                                                 *)
(* A draw is a sequence over points of [m mean vector, v variance vector,          *)
(* p density of the target, h entropy], fixed point at S = 10^6.                   *)
EXTENDS Integers, Sequences, FiniteSets

PAbs(x) == IF x < 0 THEN -x ELSE x
PMax(a, b) == IF a > b THEN a ELSE b
PDiv(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((b \div 2 - a) \div b)
RECURSIVE PSum(_)
PSum(s) == IF s = <<>> THEN 0 ELSE s[1] + PSum(Tail(s))
Mean(s) == PDiv(PSum(s), Len(s))
(* The square of a number at scale 10^6, within 32 bits. *)
Sq(d) == LET a == PAbs(d) IN
         IF a <= 45000 THEN PDiv(a * a, 1000000)
         ELSE IF a <= 460000 THEN LET b == PDiv(a, 10) IN PDiv(b * b, 10000)
         ELSE LET b == PDiv(a, 100) IN IF b <= 46000 THEN PDiv(b * b, 100)
         ELSE LET c == PDiv(a, 1000) IN IF c <= 45000 THEN c * c ELSE 2000000000

(* -------------------------------------------------- the mixture at one point *)
At(ds, i, f) == [s \in 1..Len(ds) |-> ds[s][i][f]]
Col(ds, i, f, j) == [s \in 1..Len(ds) |-> ds[s][i][f][j]]
Dim(ds, i, f) == Len(ds[1][i][f])
MeanOf(ds, i) == [j \in 1..Dim(ds, i, "m") |-> Mean(Col(ds, i, "m", j))]
AleOf(ds, i)  == [j \in 1..Dim(ds, i, "v") |-> Mean(Col(ds, i, "v", j))]
SpreadOf(xs)  == LET c == Mean(xs) IN Mean([s \in 1..Len(xs) |-> Sq(xs[s] - c)])
EpiOf(ds, i)  == [j \in 1..Dim(ds, i, "m") |-> SpreadOf(Col(ds, i, "m", j))]
VarOf(ds, i)  == [j \in 1..Dim(ds, i, "m") |-> AleOf(ds, i)[j] + EpiOf(ds, i)[j]]
DensOf(ds, i) == Mean(At(ds, i, "p"))
EntOf(ds, i)  == Mean(At(ds, i, "h"))

(* Natural logarithm of p/10^6, 0 < p, at scale 10^4. *)
RECURSIVE LnS(_, _)
LnS(p, k) == IF p < 707107 THEN LnS(2 * p, k + 1)
             ELSE LET y == PDiv((p - 1000000) * 100, PDiv(p + 1000000, 100))    \* (p-1)/(p+1) at 10^4
                      y2 == PDiv(y * y, 10000)
                      y3 == PDiv(y * y2, 10000)
                      y5 == PDiv(y3 * y2, 10000)
                  IN 2 * y + PDiv(2 * y3, 3) + PDiv(2 * y5, 5) - PDiv(69315 * k, 10)
Ln(p) == LnS(p, 0)
(* Entropy (10^4) of a probability vector (10^6). *)
XLogX(p) == IF p <= 0 THEN 0 ELSE PDiv(PDiv(p, 100) * Ln(p), 10000)
Entropy(ps) == -PSum([j \in 1..Len(ps) |-> XLogX(ps[j])])

(* ----------------------------------------------------------- sets of labels *)
Desc(ps, ls) == \A a \in 1..(Len(ls) - 1) : ps[ls[a]] >= ps[ls[a + 1]]
MassOf(ps, ls, k) == PSum([a \in 1..k |-> ps[ls[a]]])
(* The shortest sequence of most probable labels with mass above 1 - err, or all  *)
(* labels; probabilities may be off by tol.                                       *)
IsCredible(ps, ls, err, tol) ==
  /\ Len(ls) \in 1..Len(ps)
  /\ \A a, b \in 1..Len(ls) : a # b => ls[a] # ls[b]
  /\ \A a \in 1..(Len(ls) - 1) : ps[ls[a]] >= ps[ls[a + 1]] - tol
  /\ \A b \in 1..Len(ps) : (\A a \in 1..Len(ls) : ls[a] # b) => ps[b] <= ps[ls[Len(ls)]] + tol
  /\ MassOf(ps, ls, Len(ls) - 1) <= 1000000 - err + tol
  /\ Len(ls) = Len(ps) \/ MassOf(ps, ls, Len(ls)) > 1000000 - err - tol

(* Bayes-conformal sets: w[y] weights of the draws for label y (density of y under *)
(* each draw); tr[s][j] density of training target j under draw s.  Label y is in  *)
(* iff the rank of its score among the n+1 scores exceeds err (n+1), err = en/ed.   *)
(* at scale 10^5 *)
Score(w, f) == LET t == PMax(1, PDiv(PSum(w), 100)) IN PSum([s \in 1..Len(w) |-> PDiv(PDiv(w[s], 100) * PDiv(f[s], 10), t)])
RankLo(w, tr, n, tol) == LET sy == Score(w, w) IN 1 + Cardinality({j \in 1..n : Score(w, [s \in 1..Len(w) |-> tr[s][j]]) <= sy - tol})
RankHi(w, tr, n, tol) == LET sy == Score(w, w) IN 1 + Cardinality({j \in 1..n : Score(w, [s \in 1..Len(w) |-> tr[s][j]]) <= sy + tol})
MustBeIn(w, tr, n, en, ed, tol) == RankLo(w, tr, n, tol) * ed > en * (n + 1)
MayBeIn(w, tr, n, en, ed, tol)  == RankHi(w, tr, n, tol) * ed > en * (n + 1)

(* The q-quantile (thousandths) of sorted samples, interpolated linearly. *)
QuantileOf(xs, q) ==
  LET sorted == CHOOSE p \in [1..Len(xs) -> 1..Len(xs)] :
                  (\A a, b \in 1..Len(xs) : a # b => p[a] # p[b]) /\ \A a \in 1..(Len(xs) - 1) : xs[p[a]] <= xs[p[a + 1]]
      pos == (Len(xs) - 1) * q
      lo == pos \div 1000
      fr == pos % 1000
  IN IF fr = 0 THEN xs[sorted[lo + 1]] ELSE xs[sorted[lo + 1]] + PDiv((xs[sorted[lo + 2]] - xs[sorted[lo + 1]]) * fr, 1000)

(* ------------------------------------------------------ batches and devices *)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Shard(b, D) == LET k == Len(b) \div D IN [e \in 1..D |-> SubSeq(b, (e - 1) * k + 1, e * k)]
(* Per device a sequence over its points; or, per device, one such sequence per draw. *)
UnshardRows(a) == Cat(a)
UnshardDraws(a) == [s \in 1..Len(a[1]) |-> Cat([e \in 1..Len(a) |-> a[e][s]])]
(* What flattening the first two axes of [device, draw, point] would give instead. *)
FlattenFirst(a) == Cat(a)
=============================================================================
