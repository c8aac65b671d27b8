---------------------------- MODULE ConformalTrace ----------------------------
(* Recorded results of the conformal methods against Conformal.tla.  Inputs    *)
(* are exact multiples of 1/S; returned reals are given at scale S*K.          *)
EXTENDS Conformal, TraceLib
VARIABLES res, err, win     \* EnbPI residual window; adaptive error; miss history
vars == <<tid, l, res, err, win>>
Init == TInit /\ res = <<>> /\ err = 0 /\ win = <<>>
K == 32
Near(name, got, want, tol) ==
  IF Absv(got - want) <= tol THEN TRUE ELSE PrintT(<<"CLAUSE", tid, l, name, "got", got, "want", want>>) /\ FALSE
AllNear(name, got, want, tol) ==
  /\ ChkEq(name \o ": how many", Len(got), Len(want))
  /\ \A i \in 1..Len(want) : Near(name, got[i], want[i], tol)
Same == UNCHANGED <<res, err, win>>

(* ---- sets: folds of [probs, targets, test], one fold for split methods ---- *)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
SetsEvent ==
  /\ Is("sets")
  /\ LET f == E.folds
         cal == Cat([k \in 1..Len(f) |-> [i \in 1..Len(f[k].probs) |->
                       Score(E.kind, E.D, f[k].probs[i], f[k].targets[i] + 1)]])
         tests == Cat([k \in 1..Len(f) |-> f[k].test])
     IN /\ ChkEq("one set per test point (and fold)", Len(E.sets), Len(tests))
        /\ \A i \in 1..Len(tests) :
             ChkEq("set", {E.sets[i][k] + 1 : k \in 1..Len(E.sets[i])}, SetOf(E.kind, E.D, cal, tests[i], E.num, E.den))
        /\ \A i \in 1..Len(tests) : Chk("no label twice", Cardinality(RangeOf(E.sets[i])) = Len(E.sets[i]))
        /\ ChkEq("calibration scores", E.calscores, cal)
        /\ ChkEq("membership", E.isin, [i \in 1..Len(E.ask) |-> E.ask[i] \in RangeOf(E.sets[i])])
        /\ Chk("inputs left alone", E.untouched)
        /\ Chk("smaller errors give larger sets",
               \A i \in 1..Len(tests) : RangeOf(E.sets[i]) \subseteq RangeOf(E.smaller[i]))
  /\ Same

(* ---- intervals ---- *)
Iv(name, lo, hi) ==
  /\ ChkEq(name \o ": one interval per test point", Len(E.iv), Len(lo))
  /\ \A i \in 1..Len(lo) : /\ Near(name \o " lower bound", E.iv[i][1], lo[i], E.tol)
                           /\ Near(name \o " upper bound", E.iv[i][2], hi[i], E.tol)
  /\ Chk("inputs left alone", E.untouched)
  /\ Chk("order of calibration points is irrelevant", E.permuted)
  /\ Chk("smaller errors give wider intervals", E.nested)
InQ(v, lo, hi) == lo <= v /\ v <= hi

CqrEvent ==
  /\ Is("cqr")
  /\ LET n == Len(E.y)
         sc == [i \in 1..n |-> Max2(E.lo[i] - E.y[i], E.y[i] - E.hi[i])]
         q == RDiv(K * ConfQuantN(sc, E.num, E.den), n)
     IN /\ AllNear("scores", E.scores, [i \in 1..n |-> K * sc[i]], 2)
        /\ Near("quantile", E.q, q, E.tol)
        /\ Iv("quantile interval", [i \in 1..Len(E.tlo) |-> K * E.tlo[i] - q], [i \in 1..Len(E.tlo) |-> K * E.thi[i] + q])
        /\ ChkEq("membership", E.isin, [i \in 1..Len(E.ask) |-> InQ(K * E.ask[i], E.iv[i][1], E.iv[i][2])])
  /\ Same
(* uncertainties are given as u = 2^k/4: scores |y-m|/u are exact at 1/S *)
OneDEvent ==
  /\ Is("oned")
  /\ LET n == Len(E.y)
         sc == [i \in 1..n |-> (4 * Absv(E.y[i] - E.m[i])) \div E.u4[i]]
         q == RDiv(K * ConfQuantN(sc, E.num, E.den), n)
     IN /\ AllNear("scores", E.scores, [i \in 1..n |-> K * sc[i]], 2)
        /\ Near("quantile", E.q, q, E.tol)
        /\ Iv("uncertainty interval", [i \in 1..Len(E.tm) |-> K * E.tm[i] - RDiv(q * E.tu4[i], 4)],
                                      [i \in 1..Len(E.tm) |-> K * E.tm[i] + RDiv(q * E.tu4[i], 4)])
  /\ Same
Low(s)  == RDiv(K * QuantB(s, E.num, E.den), E.den)
High(s) == RDiv(K * QuantB(s, E.den - E.num, E.den), E.den)
(* r: residuals of all points; pr[i][t]: prediction at test point t of the model *)
(* that did not see point i *)
LooEvent ==
  /\ Is("loo")
  /\ LET n == Len(E.y)
         r == [i \in 1..n |-> Absv(E.y[i] - E.m[i])]
         T == 1..Len(E.pr[1])
         col(t, sg) == [i \in 1..n |-> E.pr[i][t] + sg * r[i]]
         ps(t) == {E.pr[i][t] : i \in 1..n}
         mn(t) == CHOOSE x \in ps(t) : \A z \in ps(t) : x <= z
         mx(t) == CHOOSE x \in ps(t) : \A z \in ps(t) : x >= z
     IN IF E.kind = "minmax"
        THEN Iv("jackknife-minmax", [t \in T |-> K * mn(t) - High(r)], [t \in T |-> K * mx(t) + High(r)])
        ELSE Iv("jackknife+/CV+", [t \in T |-> Low(col(t, -1))], [t \in T |-> High(col(t, 1))])
  /\ Same

(* ---- EnbPI ---- *)
(* K * aggregate of the selected predictions *)
Agg(f, sel, x) == CASE f = "mean" -> RDiv(K * SetSum(sel, x), Cardinality(sel))
                    [] f = "max" -> K * (CHOOSE v \in {x[i] : i \in sel} : \A i \in sel : x[i] <= v)
                    [] f = "min" -> K * (CHOOSE v \in {x[i] : i \in sel} : \A i \in sel : x[i] >= v)
Col(mat, t) == [b \in 1..Len(mat) |-> mat[b][t]]
EnbStart ==
  /\ Is("enbpi")
  /\ LET nb == Len(E.idx)
         n == Len(E.y)
         m == Len(E.test[1])
         out(t) == {b \in 1..nb : t - 1 \notin RangeOf(E.idx[b])}
         wr == [t \in 1..n |-> IF out(t) = {} THEN Absv(K * E.y[t])
                               ELSE Absv(K * E.y[t] - Agg(E.f, out(t), Col(E.train, t)))]
         ag(j) == [t \in 1..n |-> IF out(t) = {} THEN 0 ELSE Agg(E.f, out(t), Col(E.test, j))]
         qt(j) == RDiv(QuantB(ag(j), E.den - E.num, E.den), E.den)
         qr == RDiv(QuantB(wr, E.den - E.num, E.den), E.den)
     IN /\ AllNear("out-of-bag residuals", E.res, wr, E.tol)
        /\ ChkEq("one interval per test point", Len(E.iv), m)
        /\ \A j \in 1..m : Near("lower bound", E.iv[j][1], qt(j) - qr, E.tol) /\ Near("upper bound", E.iv[j][2], qt(j) + qr, E.tol)
        /\ Chk("inputs left alone", E.untouched)
  /\ res' = E.res /\ UNCHANGED <<err, win>>
EnbUpdate ==
  /\ Is("enbpi_new")
  /\ LET nb == Len(E.train)
         k == Len(E.y)
         new == [t \in 1..k |-> Absv(K * E.y[t] - Agg(E.f, 1..nb, Col(E.train, t)))]
         all == res \o new
         w == SubSeq(all, Len(all) - Len(res) + 1, Len(all))
         qr == RDiv(QuantB(E.res, E.den - E.num, E.den), E.den)
         m == Len(E.test[1])
         ag(j) == Agg(E.f, 1..nb, Col(E.test, j))
     IN /\ AllNear("residual window", E.res, w, E.tol)
        /\ ChkEq("one interval per test point", Len(E.iv), m)
        /\ \A j \in 1..m : Near("lower bound", E.iv[j][1], ag(j) - qr, E.tol) /\ Near("upper bound", E.iv[j][2], ag(j) + qr, E.tol)
        /\ Chk("inputs left alone", E.untouched)
  /\ res' = E.res /\ UNCHANGED <<err, win>>

(* ---- adaptive error, scale A ---- *)
A == 65536
AdStart == Is("ad_start") /\ err' = E.error /\ win' = <<>> /\ res' = res
Clamp(x) == IF x < 0 THEN 0 ELSE IF x > A THEN A ELSE x
AdUpdate ==
  /\ Is("ad")
  /\ LET in == IF E.kind = "interval" THEN InQ(E.target, E.iv[1], E.iv[2]) ELSE E.target \in RangeOf(E.set)
         hit == IF in THEN 1 ELSE 0
         h == IF E.weighted THEN Append(E.were, hit) ELSE <<hit>>
         \* weights in 1/64, target error in 1/64, gamma = gnum/gden
         missed64 == IF E.weighted THEN SetSum(1..Len(h), [i \in 1..Len(h) |-> E.w[i] * (1 - h[i])]) ELSE 64 * (1 - hit)
         new == Clamp(err + RDiv((A \div 64) * (E.te - missed64) * E.gnum, E.gden))
     IN /\ Near("error", E.error, new, 4)
        /\ ChkEq("miss history", E.wereout, h)
        /\ Chk("inputs left alone", E.untouched)
        /\ err' = E.error
  /\ UNCHANGED <<res, win>>
AdRefused == Is("ad_bad") /\ ChkEq("invalid arguments refused", E.exc, "ValueError") /\ Same

Next == (SetsEvent \/ CqrEvent \/ OneDEvent \/ LooEvent \/ EnbStart \/ EnbUpdate \/ AdStart \/ AdUpdate \/ AdRefused) /\ Adv
Spec == Init /\ [][Next]_vars
=============================================================================
