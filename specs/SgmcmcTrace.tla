---------------------------- MODULE SgmcmcTrace ----------------------------
(* Recorded samplers.  Two leaves of equal size move under constant gradients;  *)
(* du is the part of the move due to the gradient, nv, nm, lag, xc, kc are the   *)
(* variance, mean, covariance with the previous step, correlation of the leaves *)
(* and correlation with another key's run of the rest, rep the largest with an   *)
(* earlier step.                                                                *)
EXTENDS Sgmcmc, TraceLib
VARIABLES m, q, V, cnt, mp   \* per leaf; steps done; previous <<root step, mass>>
vars == <<tid, l, m, q, V, cnt, mp>>
Init == TInit /\ m = <<0, 0>> /\ q = <<0, 0>> /\ V = 0 /\ cnt = 0 /\ mp = <<0, 1>>
Near(x, y, tol) == Abs(x - y) <= tol + (Abs(y) \div 400)
(* ----- step-size schedules *)
SizeEv == /\ Is("size") /\ ChkEq("step size", TRUE, Close(E.v, Size(E.sch, E.step), 3)) /\ UNCHANGED <<m, q, V, cnt, mp>>
SizeQEv == /\ Is("sizeq") /\ Chk("step size (exponent 3/4)", Close(E.v, SizeQ(E.init, E.x), 3)) /\ UNCHANGED <<m, q, V, cnt, mp>>
Bad == Is("bad") /\ ChkEq("illegal schedule refused", E.exc, "ValueError") /\ UNCHANGED <<m, q, V, cnt, mp>>
(* ----- noise statistics of E.n draws *)
NoiseOk(var, tolv) ==
  \A i \in 1..2 :
    /\ Chk(<<"noise variance", i, E.nv[i], "want", var>>, Close(E.nv[i], var, (var * 8) \div 100 + tolv))
    /\ Chk(<<"noise mean", i, E.nm[i]>>, 20 * Abs(E.nm[i]) <= E.nsd[i] + 20)     \* 6 sd of the mean of 16384
Fresh == /\ Chk("leaves get different noise", Abs(E.xc) <= 600)
         /\ Chk("another key gives other noise", Abs(E.kc) <= 600)
         /\ Chk("the same key gives the same noise", E.same)
Start == Is("run") /\ m' = <<0, 0>> /\ q' = <<0, 0>> /\ V' = 0 /\ cnt' = 0 /\ mp' = <<0, 1>>
C == E.c    \* [k, d, pre, r, eps, cyc, sch]
Hmc == /\ Is("hmc")
       /\ ChkEq("steps counted", E.count, cnt + 1)
       /\ LET q1 == [i \in 1..2 |-> Square(C.pre, C.r, q[i], E.g[i])]
              ms == [i \in 1..2 |-> Mass(C.pre, C.eps, q1[i])]
              m1 == [i \in 1..2 |-> Momentum(C.d, m[i], E.g[i], E.rs)]
              m0 == Mass(C.pre, C.eps, 0)        \* mass in the run without gradient
              v1 == NoiseVar(C.d, V, m0)
              lag == Rd(Rd(Rd(Rd(Rd(V * C.d, 8) * E.rs, 64) * mp[1], 64) * 1000, m0) * 1000, m0)
          IN /\ \A i \in 1..2 : (~C.pre \/ C.d = 8) =>
                  /\ Chk(<<"move", i, E.du[i], "want", Move(m1[i], E.rs, ms[i])>>, Near(E.du[i], Move(m1[i], E.rs, ms[i]), 12))
                  /\ Chk(<<"the same for every coordinate", i>>, E.sp[i] <= 10 + (Abs(E.du[i]) \div 1000))
             /\ NoiseOk(MoveVar(v1, E.rs, m0), 3)
             /\ \A i \in 1..2 : Chk(<<"noise remembered", i, E.lag[i], "want", lag>>, Close(E.lag[i], lag, (E.nv[i] * 8) \div 100 + (E.nvp[i] * 8) \div 100 + 3))
             /\ v1 > 40 => Fresh /\ (C.d > 0 \/ Chk("noise never repeated", E.rep <= 600))
             /\ m' = m1 /\ q' = q1 /\ V' = v1
       /\ cnt' = cnt + 1 /\ mp' = <<E.rs, 1>>
Cyc == /\ Is("cyc")
       /\ LET q1 == [i \in 1..2 |-> Square(C.pre, C.r, q[i], E.g[i])]
              ms == [i \in 1..2 |-> Mass(C.pre, C.eps, q1[i])]
              m0 == Mass(C.pre, C.eps, 0)
              ss == Size(C.sch, cnt)
              nv == NoiseC(C.cyc, cnt, ss, m0)
          IN /\ \A i \in 1..2 : (~C.pre \/ Exploring(C.cyc, cnt + 1)) =>
                  /\ Chk(<<"move", i, E.du[i], "want", DriftC(ss, E.g[i], ms[i])>>, Near(E.du[i], DriftC(ss, E.g[i], ms[i]), 3 + (4 * Abs(E.g[i])) \div ms[i]))
                  /\ Chk(<<"the same for every coordinate", i>>, E.sp[i] <= 10 + (Abs(E.du[i]) \div 1000))
             /\ NoiseOk(nv, IF nv = 0 THEN 0 ELSE 1 + 4000 \div m0)
             /\ nv > 40 => Fresh /\ Chk("noise never repeated", E.rep <= 600) /\ \A i \in 1..2 : Chk("noise drawn afresh", Abs(E.lag[i]) <= (E.nv[i] * 8) \div 100 + (E.nvp[i] * 8) \div 100 + 3)
             /\ q' = q1
       /\ UNCHANGED <<m, V, mp>> /\ cnt' = cnt + 1
(* ----- a step of a real fit: what is left of it, in units of its own noise     *)
(* (want: variance in U-units; proj: drift along the gradient minus the expected *)
(* one, over gg, the expected one, all in thousandths; N coordinates).           *)
FitStep == /\ Is("fitstep")
           /\ LET noisy == IF C.k = "sghmc" THEN C.d < 8 ELSE ~Exploring(C.cyc, E.k + 1)
                  want == IF ~noisy THEN 0 ELSE IF C.k = "sghmc" THEN (2 * (8 - C.d) * U) \div 8 ELSE 2 * U
              IN /\ Chk(<<"noise of the fit", E.var, "want", want>>, IF noisy THEN Close(E.var, want, want \div 4) ELSE E.var <= E.slack)
                 /\ Chk(<<"drift of the fit", E.proj, E.gg>>, Abs(E.proj) <= 10000 + E.gg \div 100)
                 /\ noisy => Chk(<<"no memory in the noise", E.ac>>, Abs(E.ac) <= 1500)
           /\ UNCHANGED <<m, q, V, cnt, mp>>
Next == (SizeEv \/ SizeQEv \/ Bad \/ Start \/ Hmc \/ Cyc \/ FitStep) /\ Adv
Spec == Init /\ [][Next]_vars
=============================================================================
