------------------------------ MODULE Conformal ------------------------------
(* Definitions of the conformal methods on integers (fixed point). *)
EXTENDS Integers, Sequences, FiniteSets

Absv(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE SetSum(_, _)
SetSum(s, f) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN f[x] + SetSum(s \ {x}, f)
Tot(s) == SetSum(DOMAIN s, s)

(* ---------------------------------------------------------- classification *)
(* score of label y (1-based) under probabilities p given in units of 1/D *)
Simple(D, p, y)   == D - p[y]
Adaptive(D, p, y) == p[y] + SetSum({j \in DOMAIN p : p[j] > p[y]}, p)
Score(kind, D, p, y) == IF kind = "simple" THEN Simple(D, p, y) ELSE Adaptive(D, p, y)
Below(cal, s) == Cardinality({i \in DOMAIN cal : cal[i] < s})
(* error level num/den; n calibration scores *)
Conforms(cal, s, num, den) == den * Below(cal, s) < (den - num) * (Len(cal) + 1)
SetOf(kind, D, cal, p, num, den) == {y \in DOMAIN p : Conforms(cal, Score(kind, D, p, y), num, den)}

(* -------------------------------------------------------------- quantiles *)
RankOf(s, i) == Cardinality({j \in DOMAIN s : s[j] < s[i] \/ (s[j] = s[i] /\ j < i)})
Sorted(s) == LET at == [k \in 1..Len(s) |-> CHOOSE i \in DOMAIN s : RankOf(s, i) = k - 1]
             IN [k \in 1..Len(s) |-> s[at[k]]]
(* b * (linearly interpolated a/b quantile of s), 0 <= a/b <= 1 *)
QuantB(s, a, b) ==
  LET t == Sorted(s)
      p == (Len(s) - 1) * a
      lo == p \div b
      r == p % b
  IN IF r = 0 THEN b * t[lo + 1] ELSE (b - r) * t[lo + 1] + r * t[lo + 2]
CeilD(a, b) == (a + b - 1) \div b
Level(n, num, den) == CeilD((n + 1) * (den - num), den)   \* over n
(* n * the conformal quantile of the scores; defined if Level <= n *)
ConfQuantN(s, num, den) == QuantB(s, Level(Len(s), num, den), Len(s))
Defined(n, num, den) == Level(n, num, den) <= n /\ Level(n, num, den) >= 0
=============================================================================
