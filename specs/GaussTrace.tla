------------------------------ MODULE GaussTrace ------------------------------
(* Recorded Gaussian posteriors, in units of 1e-7 (curvatures in thousandths).   *)
EXTENDS Gauss, TraceLib
VARIABLES xs, devs, st
vars == <<tid, l, xs, devs, st>>
NoSt == [mean |-> <<>>, sd |-> <<>>, dev |-> <<>>]
Init == TInit /\ xs = <<>> /\ devs = <<>> /\ st = NoSt
Start == Is("start") /\ xs' = <<>> /\ devs' = <<>> /\ st' = st
(* SGD visits a point (which a collection follows). *)
Visit == /\ Is("visit") /\ xs' = Append(xs, E.x)
         /\ devs' = Keep(devs, TLCEval([i \in 1..Len(E.x) |-> Dev(xs', i)]), Cfg.rank)
         /\ st' = st
(* The moments held, by the model or in a checkpoint written at that point. *)
Moments ==
  /\ ChkEq("parameters covered", Len(E.mean), Dim(xs))
  /\ \A i \in 1..Dim(xs) :
       /\ Chk(<<"mean is the average of the points visited", i, E.mean[i], Mean(xs, i)>>, Close(E.mean[i], Mean(xs, i), 60))
       /\ LET q == 1 + Spread(xs, i) \div 5000
              want == Var(xs, i, q)
              got == Rd(E.sd[i], q) * Rd(E.sd[i], q)
          IN Chk(<<"variance of the points visited", i, got, want>>, E.sd[i] >= 0 /\ Close(got, want, want \div 40 + (60000000 \div q) \div q + 4))
  /\ ChkEq("deviations kept", Len(E.dev), Len(devs))
  /\ \A k \in 1..Len(devs) : \A i \in 1..Dim(xs) : Chk(<<"deviation", k, i, E.dev[k][i], devs[k][i]>>, Close(E.dev[k][i], devs[k][i], 90))
Swag == Is("swag") /\ Moments /\ st' = [mean |-> E.mean, sd |-> E.sd, dev |-> E.dev] /\ UNCHANGED <<xs, devs>>
Ck == Is("ck") /\ Moments /\ UNCHANGED <<xs, devs, st>>
(* A model that loaded the state holds the same. *)
Held == Is("held") /\ Chk("moments after loading", E.mean = st.mean /\ E.sd = st.sd /\ E.dev = st.dev) /\ UNCHANGED <<xs, devs, st>>
(* Any other Gaussian: what it holds.  Laplace: its deviation is that of prior and *)
(* data precision, in thousandths (prec: the prior's).                              *)
Diag == /\ Is("diag")
        /\ \A i \in 1..Len(E.curv) : Chk(<<"curvature of the likelihood", i, E.h[i]>>,
             LET w == Sum([n \in 1..Len(E.pts) |-> IF E.reg THEN CurvR(E.curv[i][n], E.pts[n][1], E.pts[n][2]) ELSE CurvC(E.curv[i][n], E.pts[n])])
             IN Close(E.h[i], w, Abs(w) \div 40 + 3 * Len(E.pts)))
        /\ st' = [mean |-> E.mean, sd |-> E.sd, dev |-> <<>>] /\ UNCHANGED <<xs, devs>>
(* n draws, projected on v. *)
Along1(v) == LET q == 1 + MaxI(Most([i \in 1..Len(v) |-> IF v[i] = 0 THEN 0 ELSE st.sd[i]]),
                              Most([k \in 1..Len(st.dev) |-> Most([i \in 1..Len(v) |-> IF v[i] = 0 THEN 0 ELSE st.dev[k][i]])])) \div 500
                 w == IF st.dev = <<>> THEN DiagVar(v, st.sd, q) ELSE SwagVar(v, st.sd, st.dev, q)
             IN <<q, w>>
RECURSIVE Root(_, _)
Root(x, g) == IF g * g > x THEN Root(x, (g + x \div g) \div 2) ELSE g
Sqrt(x) == IF x < 2 THEN x ELSE Root(x, 46340)
Draws ==
  /\ Is("draws")
  /\ \A k \in 1..Len(E.dirs) :
       LET a == TLCEval(Along1(E.dirs[k].v))
           q == a[1]
           w == a[2]
           got == Rd(E.dirs[k].sd, q) * Rd(E.dirs[k].sd, q)
           mu == Along(E.dirs[k].v, st.mean)
       IN /\ Chk(<<"variance of the draws", E.dirs[k].v, got, w>>, Close(got, w, (w * 27) \div 100 + 30))
          /\ Chk(<<"mean of the draws", E.dirs[k].v, E.dirs[k].mean, mu>>, Close(Rd(E.dirs[k].mean - mu, q), 0, (Sqrt(w) * 20) \div 100 + 3))
          /\ w > 400 => Chk(<<"draws are Gaussian", E.dirs[k].v, E.dirs[k].in1>>, Close(E.dirs[k].in1, 683, 90))
  /\ Chk("frozen parameters as they are", E.frozen)
  /\ Chk("calibration parameters as they are", E.calib)
  /\ Chk("the same key gives the same draw", E.same)
  /\ Chk("another key gives another draw", E.other)
  /\ UNCHANGED <<xs, devs, st>>
(* Running statistics of a draw: moved from those held towards its own batch, by half. *)
Mut == /\ Is("mut") /\ \A i \in 1..Len(E.old) : Chk(<<"running statistics of a draw", i, E.new[i]>>, Close(E.new[i], Rd(E.old[i] + E.batch[i], 2), 4 + Abs(E.new[i]) \div 20000))
       /\ UNCHANGED <<xs, devs, st>>
(* The prior chosen is a candidate, and (nearly) the best of them: val are their      *)
(* validation log-probabilities, tol their Monte-Carlo error, in thousandths.         *)
Tune == /\ Is("tune") /\ ChkEq("tuning went through", E.exc, "")
        /\ Chk("one of the candidates", E.pick \in 1..Len(E.val))
        /\ \A j \in 1..Len(E.val) : Chk(<<"no candidate is better", E.pick, j>>, E.val[j] <= E.val[E.pick] + E.tol)
        /\ Chk("draws use the tuned prior", E.used)
        /\ UNCHANGED <<xs, devs, st>>
Next == (Start \/ Visit \/ Swag \/ Ck \/ Held \/ Diag \/ Draws \/ Mut \/ Tune) /\ Adv
Spec == Init /\ [][Next]_vars
=============================================================================
