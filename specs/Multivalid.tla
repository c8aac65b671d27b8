------------------------------ MODULE Multivalid ------------------------------
(* Multivalid calibration on fixed-point numbers (1 is S).                     *)
(* A problem p is a record                                                     *)
(*   method  "binary", "top" or "mvp"                                          *)
(*   sc      scores, N x C          gr   group memberships, N x G              *)
(*   n       number of buckets      taus subset of {0,1,2} (=, >=, <=)         *)
(*   mpn/mpd smallest fraction of calibration points a set may hold            *)
(*   en/ed   step size              mult multiplicative patches                *)
(*   cn/cd   coverage (mvp)                                                    *)
(* Values are N x C; a set is d = <<tau, g, v, c>>; K is the set of indices of *)
(* the points the patches are computed on, the rest are held out.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT S

Absn(x) == IF x < 0 THEN -x ELSE x
Rd(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))
Clip(x) == IF x < 0 THEN 0 ELSE IF x > S THEN S ELSE x
RECURSIVE SumOf(_, _)
SumOf(s, f) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN f[x] + SumOf(s \ {x}, f)

GridV(n, i) == (i * S) \div (n - 1)              \* i in 0..n-1; n-1 divides S
InBucket(tau, n, v, x) ==
  CASE tau = 0 -> 2 * n * Absn(x - v) < S
    [] tau = 1 -> 2 * n * (x - v) >= -S
    [] OTHER   -> 2 * n * (x - v) <= S
IsTop(row, c) == \A k \in DOMAIN row : row[k] <= row[c]
Member(p, gr, row, i, d) ==
  /\ InBucket(d[1], p.n, d[3], row[d[4]])
  /\ gr[i][d[2]]
  /\ p.method = "top" => IsTop(row, d[4])
In(p, gr, vals, d) == {i \in DOMAIN vals : Member(p, gr, vals[i], i, d)}
Dims(p) == IF p.method = "top" THEN 1..Len(p.sc[1]) ELSE {1}
AllSets(p) == {<<t, g, GridV(p.n, i), c>> : t \in p.taus, g \in DOMAIN p.gr[1], i \in 0..(p.n - 1), c \in Dims(p)}
Big(p, K, b) == p.mpd * Cardinality(b) >= p.mpn * Cardinality(K)

(* ------------------------------------------------------------- one patch *)
Gap(p, vals, b, c) == SumOf(b, [i \in b |-> p.sc[i][c] - vals[i][c]])
Cover(p, vals, b, delta) == Cardinality({i \in b : p.sc[i][1] <= vals[i][1] + delta})
Deltas(p) == {GridV(p.n, i) : i \in 0..(p.n - 1)} \union {-GridV(p.n, i) : i \in 0..(p.n - 1)}
MvpGap(p, vals, b, delta) == Absn(p.cn * Cardinality(b) - p.cd * Cover(p, vals, b, delta))
BestDelta(p, vals, b, delta) == \A e \in Deltas(p) : MvpGap(p, vals, b, delta) <= MvpGap(p, vals, b, e)

(* weighted error of a set, up to a common factor *)
ErrMc(p, vals, b, c) == IF b = {} THEN 0 ELSE LET a == Rd(Gap(p, vals, b, c), 4) IN Rd(a * a, Cardinality(b))
TolMc(p, vals, b, c) == 64 + 8 * Absn(Rd(Gap(p, vals, b, c), 4))
\* a set e with a strictly larger weighted error than d (beyond rounding)
Worse(p, vals, be, bd, ce, cd) ==
  IF p.method = "mvp"
  THEN LET x == MvpGap(p, vals, be, 0)
           y == MvpGap(p, vals, bd, 0)
       IN be # {} /\ (IF bd = {} THEN x > 0 ELSE x * x * Cardinality(bd) > y * y * Cardinality(be))
  ELSE ErrMc(p, vals, be, ce) > ErrMc(p, vals, bd, cd) + TolMc(p, vals, be, ce)
\* the sets that may be chosen: none of the big enough ones is worse; if every big
\* enough set is perfect any set may be chosen
Worst(p, K, vals) ==
  LET all == TLCEval(AllSets(p))
      B == TLCEval([d \in all |-> In(p, p.gr, vals, d) \cap K])
      big == TLCEval({d \in all : Big(p, K, B[d])})
      \* error of a set that is not big enough counts as zero
      bb(d) == IF d \in big THEN B[d] ELSE {}
  IN {d \in all : \A e \in big : ~Worse(p, vals, B[e], bb(d), e[4], d[4])}
AnyBig(p, K, vals) == \E d \in AllSets(p) : Big(p, K, In(p, p.gr, vals, d) \cap K)

AddPatch(p, vals, b, c) == IF b = {} THEN 0 ELSE Rd(Gap(p, vals, b, c), Cardinality(b))
MultPatch(p, vals, b, c) ==
  LET den == SumOf(b, [i \in b |-> vals[i][c]])
      num == SumOf(b, [i \in b |-> p.sc[i][c]])
  IN IF den = 0 THEN S ELSE Rd(S * num, den)
\* the patches that may be computed for a set whose calibration members are b
Patches(p, vals, b, c) ==
  IF p.method = "mvp" THEN {e \in Deltas(p) : BestDelta(p, vals, b, e)}
  ELSE IF p.mult THEN {MultPatch(p, vals, b, c)} ELSE {AddPatch(p, vals, b, c)}

Factor(p, q) == LET f == S - Rd(p.en * (S - q), p.ed) IN IF f > 16 * S THEN 16 * S ELSE f
MoveTo(p, x, q) == IF p.mult THEN Clip(Rd(x * Factor(p, q), S)) ELSE Clip(x + Rd(p.en * q, p.ed))
Apply(p, gr, vals, d, q) ==
  [i \in DOMAIN vals |-> IF Member(p, gr, vals[i], i, d)
                         THEN [vals[i] EXCEPT ![d[4]] = MoveTo(p, @, q)] ELSE vals[i]]

(* ------------------------------------------------------------------ losses *)
PerPoint(p, vals, i) ==          \* scale S*S (squares) or S*cd (pinball)
  IF p.method = "mvp"
  THEN LET df == p.sc[i][1] - vals[i][1]
       IN IF df > 0 THEN df * p.cn ELSE -df * (p.cd - p.cn)
  ELSE LET m == Len(vals[i])
       IN SumOf(1..m, [c \in 1..m |-> Rd((vals[i][c] - p.sc[i][c]) * (vals[i][c] - p.sc[i][c]), m)])
Loss(p, vals, I) == SumOf(I, [i \in I |-> Rd(PerPoint(p, vals, i), Cardinality(I))])
LossTol(p) == IF p.method = "mvp" THEN 8 ELSE S + 64

(* --------------------------------------------------------------- one shot *)
\* indices of calibration points in the bucket of grid value v (class c)
Bucket1(p, vals, v, c) == {i \in DOMAIN vals : InBucket(0, p.n, v, vals[i][c]) /\ (p.method = "top" => IsTop(vals[i], c))}
Nearest(p, x) == {GridV(p.n, i) : i \in {k \in 0..(p.n - 1) : \A j \in 0..(p.n - 1) : Absn(GridV(p.n, k) - x) <= Absn(GridV(p.n, j) - x)}}
OneShot(p, vals, v, c) ==
  LET b == Bucket1(p, vals, v, c)
  IN IF p.mpd * Cardinality(b) > p.mpn * Len(vals)
     THEN Rd(SumOf(b, [i \in b |-> p.sc[i][c]]), Cardinality(b)) ELSE v
=============================================================================
