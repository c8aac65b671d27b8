--------------------------- MODULE MultivalidTrace ---------------------------
(* Recorded calibrations against Multivalid.tla.  The same problem is          *)
(* calibrated with a limit of 1, 2, 3, ... rounds; run k's record holds its    *)
(* status, its patches, and the calibration and test values after applying     *)
(* them.  Which points were held out is not visible: the specification guesses *)
(* it (the trace is accepted iff some guess explains all records).             *)
EXTENDS Multivalid, TraceLib
VARIABLES K, vals, tvals, pats, los, stop, conv
vars == <<tid, l, K, vals, tvals, pats, los, stop, conv>>
P0 == Ev[1]                       \* the "start" record of an iterative trace
P == [P0 EXCEPT !.taus = RangeOf(P0.taus)]
N == Len(P0.sc)
Iterative == Ev[1].a = "start"
Init ==
  /\ TInit
  /\ IF Iterative
     THEN /\ K \in {k \in SUBSET (1..N) : Cardinality(k) = CeilDiv(P0.spn * N, P0.spd)}
          /\ vals = P0.v0 /\ tvals = P0.tv0
     ELSE K = {} /\ vals = <<>> /\ tvals = <<>>
  /\ pats = <<>> /\ los = <<>> /\ stop = FALSE /\ conv = FALSE
Held == (1..N) \ K
SameV == UNCHANGED <<K, vals, tvals, pats, los, stop, conv>>
Tol == LossTol(P)
LossIs(x, v) == IF Held = {} THEN x = <<>> ELSE x # <<>> /\ Absn(x[1] - Loss(P, v, Held)) <= Tol

Start == Is("start") /\ LossIs(E.loss0, P0.v0) /\ los' = <<E.loss0>> /\ UNCHANGED <<K, vals, tvals, pats, stop, conv>>

(* a value too close to a bucket boundary (or a tie between classes) to know   *)
(* on which side the recorded number, rounded to 1/S, falls                    *)
Edge == 3
NearEdge(x) == P.method # "mvp" /\ \E i \in 0..(P.n - 1) : Absn(2 * P.n * Absn(x - GridV(P.n, i)) - S) <= 2 * P.n * Edge
TopTie(row, c) == P.method = "top" /\ \E k \in DOMAIN row : k # c /\ Absn(row[k] - row[c]) <= Edge
Unclear(row, c) == NearEdge(row[c]) \/ TopTie(row, c)
AmbK(v) == \E i \in K : \E c \in Dims(P) : Unclear(v[i], c)

(* v turns into w by patch q on set d *)
STol(q) == IF P.mult THEN 3 + Absn(q) \div S ELSE 3
StepOk(gr, v, w, d, q) ==
  /\ Len(w) = Len(v)
  /\ \A i \in DOMAIN v : \A c \in DOMAIN v[i] :
       LET moved == Absn(w[i][c] - MoveTo(P, v[i][c], q)) <= STol(q)
           kept == w[i][c] = v[i][c]
           m == Member(P, gr, v[i], i, d)
       IN IF c # d[4] THEN kept
          ELSE IF Unclear(v[i], c) THEN moved \/ kept
          ELSE IF m THEN moved ELSE kept
PatchOk(d, q) ==
  LET b == In(P, P.gr, vals, d) \cap K
      c == d[4]
  IN IF AmbK(vals) THEN TRUE
     ELSE IF P.method = "mvp" THEN q \in Deltas(P) /\ BestDelta(P, vals, b, q)
     ELSE IF P.mult THEN Absn(q - MultPatch(P, vals, b, c)) <= 4 + RDiv(16 * Absn(q), 1 + SumOf(b, [i \in b |-> vals[i][c]]))
     ELSE Absn(q - AddPatch(P, vals, b, c)) <= 3
WorstOk(d) == d \in AllSets(P) /\ (AmbK(vals) \/ d \in Worst(P, K, vals))

(* stopping rules, with allowance for rounding *)
MustUp(new, old) == new > old + 2 * Tol
MayUp(new, old)  == new > old - 2 * Tol
Tr(v) == Loss(P, v, K)
HitsHeld(v, d) == \E i \in Held : Member(P, P.gr, v[i], i, d)
MayHitHeld(v, d) == \E i \in Held : Member(P, P.gr, v[i], i, d) \/ Unclear(v[i], d[4])
SureHitHeld(v, d) == \E i \in Held : Member(P, P.gr, v[i], i, d) /\ ~Unclear(v[i], d[4])
PrevLoss == los[Len(los)]
MustAtol(x) == x # <<>> /\ x[1] < P.atol - Tol
MayAtol(x)  == x # <<>> /\ x[1] <= P.atol + Tol
MustValUp(x) == x # <<>> /\ MustUp(x[1], PrevLoss[1])
MayValUp(x)  == x # <<>> /\ MayUp(x[1], PrevLoss[1])
\* relative improvement at most rn/rd
RelGap(x) == P.rd * (PrevLoss[1] - x[1]) - P.rn * PrevLoss[1]
MustRel(x, d) == x # <<>> /\ SureHitHeld(vals, d) /\ RelGap(x) < -4 * P.rd * Tol
MayRel(x, d)  == x # <<>> /\ MayHitHeld(vals, d) /\ RelGap(x) <= 4 * P.rd * Tol

K1 == Len(E.patches)
Same == /\ ChkEq("patches of a stopped run", E.patches, pats) /\ ChkEq("losses of a stopped run", E.losses, los)
        /\ ChkEq("convergence of a stopped run", E.converged, conv)
Common ==
  /\ ChkEq("rounds reported = patches", E.n_rounds, K1)
  /\ Chk("values in [0,1]", \A i \in DOMAIN E.vals : \A c \in DOMAIN E.vals[i] : E.vals[i][c] \in 0..S)
  /\ Chk("returned test values are the patched ones", E.tret = E.tvals)
  /\ Chk("inputs left alone", E.untouched)
Stopped == stop /\ Same /\ ChkEq("values", E.vals, vals) /\ ChkEq("test values", E.tvals, tvals) /\ SameV
Exhausted ==
  /\ ~stop /\ E.losses = los
  /\ AmbK(vals) \/ Chk("stopped although a set is large enough", ~AnyBig(P, K, vals))
  /\ E.patches = pats /\ ~E.converged /\ E.vals = vals /\ E.tvals = tvals
  /\ stop' = TRUE /\ UNCHANGED <<K, vals, tvals, pats, los, conv>>
LastLoss == E.losses[Len(E.losses)]
OneMoreLoss == Len(E.losses) = Len(los) + 1 /\ SubSeq(E.losses, 1, Len(los)) = los
\* set d and patch q of a recorded patch [tau, g, v, c, patch]
Dof(t) == <<t[1], t[2] + 1, t[3], t[4] + 1>>
Kept ==
  /\ ~stop /\ OneMoreLoss
  /\ K1 = Len(pats) + 1 /\ SubSeq(E.patches, 1, Len(pats)) = pats
  /\ AmbK(vals) \/ AnyBig(P, K, vals)
  /\ LET d == Dof(E.patches[K1])
         q == E.patches[K1][5]
     IN /\ Chk("patched set is the worst calibrated one", WorstOk(d))
        /\ Chk("patch", PatchOk(d, q))
        /\ Chk("calibration values", StepOk(P.gr, vals, E.vals, d, q))
        /\ Chk("test values", StepOk(P.tgr, tvals, E.tvals, d, q))
        /\ Chk("loss on held-out data", LossIs(LastLoss, E.vals))
        /\ Chk("kept although the loss went up", ~MustUp(Tr(E.vals), Tr(vals)))
        /\ Chk("stopping rule", IF E.converged THEN MayAtol(LastLoss)
                                ELSE ~MustAtol(LastLoss) /\ ~MustValUp(LastLoss) /\ ~MustRel(LastLoss, d))
  /\ vals' = E.vals /\ tvals' = E.tvals /\ pats' = E.patches /\ los' = E.losses
  /\ stop' = E.converged /\ conv' = E.converged /\ UNCHANGED K
Dropped ==
  /\ ~stop /\ OneMoreLoss
  /\ E.patches = pats /\ E.vals = vals /\ E.tvals = tvals
  /\ Chk("why the round was dropped",
       AmbK(vals) \/
       \E d \in Worst(P, K, vals) : \E q \in Patches(P, vals, In(P, P.gr, vals, d) \cap K, d[4]) :
         LET nv == Apply(P, P.gr, vals, d, q)
             unclear == \E i \in 1..N : Unclear(vals[i], d[4])
         IN /\ unclear \/ LossIs(LastLoss, nv)
            /\ IF E.converged THEN ~MustUp(Tr(nv), Tr(vals)) /\ ~MustAtol(LastLoss) /\ ~MustValUp(LastLoss) /\ MayRel(LastLoss, d)
               ELSE MayUp(Tr(nv), Tr(vals)) \/ (~MustAtol(LastLoss) /\ MayValUp(LastLoss)))
  /\ stop' = TRUE /\ conv' = E.converged /\ los' = E.losses /\ UNCHANGED <<K, vals, tvals, pats>>
RunEvent == Is("run") /\ Common /\ (Stopped \/ Exhausted \/ Kept \/ Dropped)

(* patched without values: the method's own initial values *)
InitEvent == Is("default") /\ ChkEq("patching from the default values", E.got, E.want) /\ SameV
NoPatch == Is("nopatch") /\ ChkEq("without patches", E.got, E.want) /\ SameV

(* one calibration error per group (and class): sum over level sets of         *)
(* P(set) * gap^2 relative to P(group), scale S*S                              *)
ErrEvent ==
  /\ Is("error")
  /\ LET p == [E EXCEPT !.taus = {0}]
         m == Len(E.sc)
         size(g) == Cardinality({i \in 1..m : E.gr[i][g]})
         one(g, c, j) == LET b == In(p, p.gr, E.v, <<0, g, GridV(p.n, j), c>>)
                         IN IF b = {} THEN 0
                            ELSE IF p.method = "mvp"
                            THEN \* |b|/m * (cn/cd - cnt/|b|)^2 * m/size, scale 2^20
                                 LET x == MvpGap(p, E.v, b, 0) IN RDiv((1048576 \div (p.cd * p.cd)) * x * x, Cardinality(b) * size(g))
                            ELSE LET a == RDiv(Gap(p, E.v, b, c), 8) IN RDiv(a * a, Cardinality(b) * size(g))
         want(g, c) == SumOf(0..(p.n - 1), [j \in 0..(p.n - 1) |-> one(g, c, j)])
     IN \A g \in DOMAIN E.gr[1] : \A c \in Dims(p) :
          IF size(g) = 0 THEN TRUE ELSE Chk("calibration error", Absn(E.err[g][c] - want(g, c)) <= 2000)
  /\ SameV

(* ---- one shot ---- *)
OneEvent ==
  /\ Is("oneshot")
  /\ LET p == E
         Fine(row, out, c) ==
           IF p.method = "top" /\ ~IsTop(row, c) THEN out[c] = row[c]
           ELSE \E v \in Nearest(p, row[c]) : Absn(out[c] - OneShot(p, E.v, v, c)) <= 2
     IN /\ Chk("inputs left alone", E.untouched)
        /\ Chk("test values during calibration", E.ret = E.out)
        /\ ChkEq("one value per input", Len(E.out), Len(E.tv))
        /\ \A i \in DOMAIN E.tv : \A c \in DOMAIN E.tv[i] :
             Chk("patched by its own bucket", Fine(E.tv[i], E.out[i], c))
        /\ Chk("values in [0,1]", \A i \in DOMAIN E.out : \A c \in DOMAIN E.out[i] : E.out[i][c] \in 0..S)
        /\ Chk("independent of the rest of the batch", E.alone = E.out)
  /\ SameV

(* ---- sets from thresholds ---- *)
MvpSets ==
  /\ Is("mvpset")
  /\ ChkEq("sets hold the labels scoring at most the threshold",
       [i \in DOMAIN E.sets |-> {E.sets[i][k] + 1 : k \in DOMAIN E.sets[i]}],
       [i \in DOMAIN E.cs |-> {c \in DOMAIN E.cs[i] : E.cs[i][c] <= E.th[i]}])
  /\ SameV

Next == (Start \/ RunEvent \/ InitEvent \/ NoPatch \/ ErrEvent \/ OneEvent \/ MvpSets) /\ Adv
Spec == Init /\ [][Next]_vars
=============================================================================
