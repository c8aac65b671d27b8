---------------------------- MODULE TrainingTrace ----------------------------
(* Binds Training.tla to recorded runs of the real trainers.  The model the    *)
(* harness trains is linear with one-hot inputs: parameter w[i] is touched by  *)
(* exactly the batches containing row i, so the recorded parameters identify   *)
(* which batches entered which update.  Numbers are fixed point, scale S.      *)
EXTENDS Training, TraceLib

S == 1024
RECURSIVE SumF(_, _)
SumF(b, f) == IF b = <<>> THEN 0 ELSE f[Head(b)] + SumF(Tail(b), f)

(* gradient of N/|B| * sum 1/2 (y - w_idx)^2 + prec/2 |w|^2, or, in mean mode, *)
(* of 1/|B| sum 1/2 (y-w)^2                                                    *)
RowsOf(b, i) == {j \in 1..Len(b) : b[j][1] = i}
RECURSIVE SumSet(_, _)
SumSet(s, f) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN f[x] + SumSet(s \ {x}, f)
GradOf(c, w, b) == [i \in 1..Len(w) |->
   RDiv(c.N * SumSet(RowsOf(b, i), [j \in RowsOf(b, i) |-> w[i] - b[j][2] * S]), Len(b)) + RDiv(w[i] * c.pn, c.pd)]
RECURSIVE ISq(_, _, _)
ISq(n, lo, hi) == IF hi - lo <= 1 THEN lo
                  ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN ISq(n, m, hi) ELSE ISq(n, lo, m)
ISqrt(n) == ISq(n, 0, 46341)
RECURSIVE SumTo(_, _)
SumTo(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumTo(f, i - 1)
Clip(c, g) ==
  IF c.clip = 0 THEN g
  ELSE LET h == [i \in 1..Len(g) |-> RDiv(g[i], 16)]
           n == 16 * ISqrt(SumTo([i \in 1..Len(g) |-> h[i] * h[i]], Len(g)))
       IN IF n <= c.clip THEN g ELSE [i \in 1..Len(g) |-> RDiv(g[i] * (c.clip \div 4), (n \div 4))]
NumApply(c, o, wn) ==
  LET gs1 == [j \in 1..Len(wn) |-> GradOf(c, o.w, c.batches[wn[j]])]
      g   == Clip(c, [i \in 1..Len(o.w) |->
                RDiv(SumTo([j \in 1..Len(wn) |-> gs1[j][i]], Len(wn)), Len(wn))])
      v2  == [i \in 1..Len(o.w) |-> g[i] + (IF c.mom THEN RDiv(o.v[i], 2) ELSE 0)]
  IN [w |-> [i \in 1..Len(o.w) |-> o.w[i] - RDiv(v2[i] * c.lrn, c.lrd)], v |-> v2]

(* loss at scale S (the harness has removed the constant terms) *)
LossOf(c, w, b, n) ==
  RDiv(RDiv(SumSet(1..Len(b), [j \in 1..Len(b) |-> (b[j][2] * S - w[b[j][1]]) * (b[j][2] * S - w[b[j][1]])]), S) * n, 2 * Len(b))
  + RDiv(RDiv(SumTo([i \in 1..Len(w) |-> w[i] * w[i]], Len(w)), S) * c.pn, 2 * c.pd)
PSum(w, b) == SumSet(1..Len(b), [j \in 1..Len(b) |-> w[b[j][1]]])
TSum(b)    == SumSet(1..Len(b), [j \in 1..Len(b) |-> b[j][2] * S])
NumReport(c, o, b) == [loss |-> LossOf(c, o.w, c.batches[b], c.N),
                       psum |-> PSum(o.w, c.batches[b]), tsum |-> TSum(c.batches[b])]
Mean(s) == RDiv(SumTo(s, Len(s)), Len(s))
NumMean(c, s) == IF s = <<>> THEN [loss |-> 0, psum |-> 0, tsum |-> 0]
                 ELSE [loss |-> Mean([i \in 1..Len(s) |-> s[i].loss]),
                       psum |-> Mean([i \in 1..Len(s) |-> s[i].psum]),
                       tsum |-> Mean([i \in 1..Len(s) |-> s[i].tsum])]
NumPoke(c, o, e) == [o EXCEPT !.w = [@ EXCEPT ![1] = c.script[e + 1] * (IF c.scriptScaled THEN 1 ELSE S)]]

VARIABLE vrep      \* what each validation should report
vars == <<tid, l, tvars, vrep>>

C == Traces[tid].cfg
End == Ev[Len(Ev)]
Opt0(c) == [w |-> c.w0, v |-> [i \in 1..Len(c.w0) |-> 0]]

Init == /\ TInit /\ vrep = <<>>
        /\ TrainInit(Traces[tid].cfg, Opt0(Traces[tid].cfg), Traces[tid].cfg.step0, Traces[tid].cfg.ck0)

Silent(A) == A /\ UNCHANGED <<tid, l, vrep>>

CbEvent ==
  /\ pend # <<>> /\ More
  /\ Chk("not a callback invocation", E.a \in {"epoch_start", "step_end", "epoch_end"})
  /\ ChkEq("callback due", <<E.a, E.cb>>, Head(pend))
  /\ Callback
  /\ ChkEq("state step", E.step, step)
  /\ IF CloseSeq(E.w, opt'.w, cfg.tol) THEN TRUE
     ELSE PrintT(<<"CLAUSE", tid, l, "parameters", "got", E.w, "want", opt'.w>>) /\ FALSE
  /\ E.a = "epoch_end" /\ cfg.dir /\ E.cb = 1 => ChkEq("checkpoints on disk", E.ck, [i \in 1..Len(ck) |-> ck[i][1]])
  /\ Adv /\ vrep' = vrep

(* The score early stopping sees is the reported one (End); that it is the     *)
(* right number is checked against vrep at the end.                            *)
ValReport(o) ==
  [loss |-> Mean([j \in 1..Len(cfg.vbatches) |-> LossOf(cfg, o.w, cfg.vbatches[j], cfg.NV)]),
   psum |-> Mean([j \in 1..Len(cfg.vbatches) |-> PSum(o.w, cfg.vbatches[j])])]
ScoreAt(j) == IF j > Len(End.monitor) THEN 0 ELSE End.monitor[j]
ValStep == /\ Validate(ScoreAt(Len(vals) + 1))
           /\ vrep' = Append(vrep, ValReport(opt))
           /\ UNCHANGED <<tid, l>>

CloseList(name, got, want, tol) ==
  /\ ChkEq(name \o ": entries", Len(got), Len(want))
  /\ Chk(name, CloseSeq(got, want, tol)) \/ ChkEq(name, got, want)
Fld(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]

EndEvent ==
  /\ ph = "done" /\ Is("end")
  /\ IF E.haskeys.loss THEN CloseList("status loss", E.loss, Fld(rep, LAMBDA r : r.loss), cfg.ltol) ELSE TRUE
  /\ IF cfg.metrics /\ ~cfg.nometrics
     THEN /\ CloseList("status psum", E.psum, Fld(rep, LAMBDA r : r.psum), 4 * cfg.tol)
          /\ CloseList("status tsum", E.tsum, Fld(rep, LAMBDA r : r.tsum), 8)
     ELSE Chk("training metrics although disabled", E.psum = <<>> /\ E.tsum = <<>>)
  /\ CloseList("status val_loss", E.val_loss, Fld(vrep, LAMBDA r : r.loss), cfg.ltol)
  /\ IF cfg.metrics THEN CloseList("status val_psum", E.val_psum, Fld(vrep, LAMBDA r : r.psum), 4 * cfg.tol)
     ELSE Chk("val metrics", E.val_psum = <<>>)
  /\ ChkEq("final step", E.step, step)
  /\ Chk("final parameters", CloseSeq(E.w, opt.w, cfg.tol))
  /\ ChkEq("checkpoints left", Fld(E.ck, LAMBDA x : x[1]), Fld(ck, LAMBDA x : x[1]))
  /\ Chk("checkpoint contents", \A i \in 1..Len(ck) : CloseSeq(E.ck[i][2], ck[i][2], cfg.tol))
  /\ Chk("restored step", \A i \in 1..Len(ck) : E.ck[i][3] = ck[i][1])
  /\ Chk("latest checkpoint", ck = <<>> \/ CloseSeq(E.latest, ck[Len(ck)][2], cfg.tol))
  /\ Adv /\ UNCHANGED <<tvars, vrep>>

Next == \/ Silent(EpochStart) \/ Silent(Step) \/ Silent(EpochEnd) \/ CbEvent
        \/ ValStep \/ Silent(NoValidate) \/ Silent(Finish) \/ EndEvent
Spec == Init /\ [][Next]_vars
=============================================================================
