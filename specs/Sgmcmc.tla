------------------------------- MODULE Sgmcmc -------------------------------
(* The stochastic-gradient samplers' step sizes and dynamics, in fixed point:   *)
(* sizes, moments and parameters in units of 1/U, ratios as numerators over 8.  *)
EXTENDS Chain
U == 10000
Rd(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))
MinOf(a, b) == IF a < b THEN a ELSE b
MaxO(a, b) == IF a > b THEN a ELSE b

(* ------------------------------------------------ step sizes (U-units) *)
(* cos(k*pi/12) for k = 0..12. *)
CosTab == <<10000, 9659, 8660, 7071, 5000, 2588, 0, -2588, -5000, -7071, -8660, -9659, -10000>>
Cos12(k) == LET j == k % 24 IN CosTab[(IF j > 12 THEN 24 - j ELSE j) + 1]
Half(a, k) == Rd(a * ((U + Cos12(k)) \div 2), U)      \* a (1 + cos(k pi/12)) / 2
(* sched: [kind, a, b, n, w]; n divides 12; step counted from 0. *)
Size(sch, step) ==
  CASE sch.kind = "constant" -> sch.a
    [] sch.kind = "cosine"   -> Half(sch.a, step * (12 \div sch.n))
    [] sch.kind = "poly"     -> Rd(sch.a * 10, (sch.b + 10 * step))     \* a / (b + step); b in tenths
    [] sch.kind = "burnin"   -> LET k == MinOf(step, sch.n) * (12 \div sch.n)
                                IN Half(sch.a, k) + sch.b - Half(sch.b, k)
    [] sch.kind = "cyclical" -> Half(sch.a, (MaxO(step - sch.w - 1, 0) % sch.n) * (12 \div sch.n))

(* Exponent 3/4, where b + step = x^4. *)
SizeQ(a, x) == Rd(a, x * x * x)

(* ------------------------------------------------------------ dynamics *)
(* One coordinate: the deterministic part of the momentum m, the variance V of   *)
(* its noise, the squared-gradient average q.  d and r are in eighths.           *)
RECURSIVE SqrtFrom(_, _, _)
SqrtFrom(x, lo, hi) == IF hi - lo <= 1 THEN lo
                       ELSE LET mid == (lo + hi) \div 2 IN IF mid <= x \div mid THEN SqrtFrom(x, mid, hi) ELSE SqrtFrom(x, lo, mid)
ISqrt(x) == IF x = 0 THEN 0 ELSE SqrtFrom(x, 0, 46341)
(* q in units of 1e-6, g in 1e-3, mass in 1e-3. *)
Square(pre, r, q, g) == IF pre THEN Rd(r * q + (8 - r) * g * g, 8) ELSE q
Mass(pre, eps, q) == IF pre THEN eps + ISqrt(q) ELSE 1000
(* Momentum (U-units) with root step size rs/64; g in 1e-3. *)
Momentum(d, m, g, rs) == Rd(d * m, 8) + Rd(g * 10 * rs, 64)
Move(m, rs, mass) == Rd(Rd(m * rs, 64) * 1000, mass)
(* Noise: variance of the momentum, and of the move. *)
NoiseVar(d, V, mass) == Rd(d * d * V, 64) + Rd(2 * (8 - d) * (U \div 8) * mass, 1000)
MoveVar(V, rs, mass) == Rd(Rd(Rd(Rd(V * rs, 64) * rs, 64) * 1000, mass) * 1000, mass)
(* Cyclical Langevin: with step size ss (U-units) a step moves by ss g / mass,   *)
(* with noise of variance 2 ss / mass exactly in the sampling part.              *)
DriftC(ss, g, mass) == Rd(ss * g, mass)
NoiseC(c, step, ss, mass) == IF Exploring(c, step + 1) THEN 0 ELSE Rd(2 * ss * 1000, mass)
=============================================================================
