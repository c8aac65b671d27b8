-------------------------------- MODULE Gauss --------------------------------
(* Gaussian posteriors.  SWAG: moments of the parameter vectors visited by SGD.   *)
(* Laplace: prior precision plus curvature of the likelihood.  All of them draw   *)
(* mean + diagonal noise (+ low-rank noise).                                      *)
EXTENDS Integers, Sequences, FiniteSets
Rd(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Most(_)
Most(s) == IF s = <<>> THEN 0 ELSE LET a == IF Head(s) < 0 THEN -Head(s) ELSE Head(s) b == Most(Tail(s)) IN IF a > b THEN a ELSE b
Dim(xs) == Len(xs[1])
Col(xs, i) == [t \in 1..Len(xs) |-> xs[t][i]]
(* ----- SWAG, of the visited points xs *)
Mean(xs, i) == Rd(Sum(Col(xs, i)), Len(xs))
Dev(xs, i) == xs[Len(xs)][i] - Mean(xs, i)              \* of the last point, to the mean so far
(* Variance of coordinate i in units of q^2. *)
Var(xs, i, q) == LET mu == Mean(xs, i) IN Rd(Sum([t \in 1..Len(xs) |-> Rd(xs[t][i] - mu, q) * Rd(xs[t][i] - mu, q)]), Len(xs))
Spread(xs, i) == LET mu == Mean(xs, i) IN Most([t \in 1..Len(xs) |-> xs[t][i] - mu])
(* The deviations kept: of the last rank points; the first point's is zero. *)
Keep(devs, d, rank) == IF Len(devs) < rank THEN Append(devs, d) ELSE Append(Tail(devs), d)
(* Variance of a draw along v, in units of q^2: half the diagonal, and the average *)
(* of half the squared deviations.                                                 *)
SwagVar(v, sd, dev, q) ==
  Rd(Sum([i \in 1..Len(v) |-> v[i] * v[i] * Rd(sd[i], q) * Rd(sd[i], q)]), 2)
  + Rd(Sum([k \in 1..Len(dev) |-> LET p == Rd(Sum([i \in 1..Len(v) |-> v[i] * Rd(dev[k][i], q)]), 1) IN Rd(p * p, Len(dev))]), 2)
DiagVar(v, sd, q) == Sum([i \in 1..Len(v) |-> v[i] * v[i] * Rd(sd[i], q) * Rd(sd[i], q)])
Along(v, x) == Sum([i \in 1..Len(v) |-> v[i] * x[i]])
(* ----- Laplace *)
(* -d2 log lik of one point along one parameter: J' (diag p - p p') J for a        *)
(* categorical, everything in thousandths.                                         *)
CurvC(J, p) == LET pj == Sum([c \in 1..Len(p) |-> Rd(p[c] * J[c], 1000)]) IN
               Sum([c \in 1..Len(p) |-> Rd(p[c] * Rd(J[c] * J[c], 1000), 1000)]) - Rd(pj * pj, 1000)
(* Gaussian with outputs (mean, log-variance): w = 1/variance, r = residual.       *)
CurvR(J, w, r) == Rd(w * Rd(J[1] * J[1], 1000), 1000) + 2 * Rd(Rd(w * r, 1000) * Rd(J[1] * J[2], 1000), 1000)
                  + Rd(Rd(Rd(w * r, 1000) * r, 1000) * Rd(J[2] * J[2], 1000), 2000)
=============================================================================
