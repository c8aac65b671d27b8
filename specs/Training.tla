------------------------------ MODULE Training ------------------------------
(* The supervised training loop of Fortuna: epochs over a loader of batches,   *)
(* optional gradient accumulation, callbacks, checkpoint cadence, periodic     *)
(* validation and early stopping.  One action per linearization point of the   *)
(* loop.  What an optimizer update does to the parameters, what is reported    *)
(* for a batch, and the validation score are operator parameters, so that the  *)
(* same machine is model-checked on symbolic parameters (TrainingMC) and       *)
(* bound to the real trainer on numeric ones (TrainingTrace).                  *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS ApplyWindow(_, _, _),   \* (cfg, opt, sequence of batch numbers) -> opt
          BatchReport(_, _, _),   \* (cfg, opt before the update, batch number) -> report
          EpochMean(_, _),        \* (cfg, sequence of reports) -> epoch report
          Poke(_, _, _)           \* (cfg, opt, epoch): what the scripted callback does at epoch end

VARIABLES cfg,     \* the run's configuration (fixed)
          ph,      \* "idle" | "run" | "post" | "done"
          ep, k,   \* epoch, batches consumed in it
          step,    \* optimizer-state step counter (continues over resumed runs)
          gs,      \* batches processed in this run
          win,     \* batches accumulated since the last update
          opt,     \* parameters and optimizer memory
          elog, rep,  \* batch reports of this epoch; epoch reports
          vals,    \* <<epoch, score>> of every validation
          best, cnt, improved, stop,   \* early stopping; best is <<>> or <<score>>
          ck,      \* checkpoints on disk, ascending <<step, parameters>>
          pend     \* callback invocations due, <<method, callback number>>

tvars == <<cfg, ph, ep, k, step, gs, win, opt, elog, rep, vals, best, cnt, improved, stop, ck, pend>>

G == IF cfg.gas > 1 THEN cfg.gas ELSE 1
Due(m) == [c \in 1..cfg.ncb |-> <<m, c>>]

(* Saving keeps the newest `keep` checkpoints; anything at a later step goes. *)
LastN(s, n) == SubSeq(s, IF Len(s) > n THEN Len(s) - n + 1 ELSE 1, Len(s))
Save(c, st, w, keep) == LastN(Append(SelectSeq(c, LAMBDA x : x[1] < st), <<st, w>>), keep)

TrainInit(c, opt0, step0, ck0) ==
  /\ cfg = c /\ ph = "idle" /\ ep = 0 /\ k = 0 /\ step = step0 /\ gs = 0 /\ win = <<>>
  /\ opt = opt0 /\ elog = <<>> /\ rep = <<>> /\ vals = <<>>
  /\ best = <<>> /\ cnt = 0 /\ improved = FALSE /\ stop = FALSE /\ ck = ck0 /\ pend = <<>>

EpochStart ==
  /\ pend = <<>> /\ ph = "idle" /\ ep < cfg.epochs /\ ~stop
  /\ ph' = "run" /\ k' = 0 /\ elog' = <<>> /\ pend' = Due("epoch_start")
  /\ UNCHANGED <<cfg, ep, step, gs, win, opt, rep, vals, best, cnt, improved, stop, ck>>

Step ==
  /\ pend = <<>> /\ ph = "run" /\ k < cfg.nb
  /\ LET b    == k + 1
         win2 == Append(win, b)
         upd  == (step + 1) % G = 0
         vis  == (k + 1) % G = 0
         o2   == IF upd THEN ApplyWindow(cfg, opt, win2) ELSE opt
     IN /\ opt' = o2
        /\ win' = IF upd THEN <<>> ELSE win2
        /\ k' = k + 1 /\ step' = step + 1 /\ gs' = gs + 1
        /\ elog' = IF vis THEN Append(elog, BatchReport(cfg, opt, b)) ELSE elog
        /\ ck' = IF vis /\ cfg.dir /\ cfg.saveEvery > 0 /\ gs + 1 >= cfg.saveEvery
                        /\ (gs + 1) % cfg.saveEvery = 0
                 THEN Save(ck, step + 1, o2.w, cfg.keep) ELSE ck
        /\ pend' = IF vis THEN Due("step_end") ELSE <<>>
  /\ UNCHANGED <<cfg, ph, ep, rep, vals, best, cnt, improved, stop>>

EpochEnd ==
  /\ pend = <<>> /\ ph = "run" /\ k = cfg.nb
  /\ rep' = IF elog = <<>> THEN rep ELSE Append(rep, EpochMean(cfg, elog))   \* nothing was reported: no entry
  /\ ph' = "post" /\ pend' = Due("epoch_end")
  /\ UNCHANGED <<cfg, ep, k, step, gs, win, opt, elog, vals, best, cnt, improved, stop, ck>>

(* A callback runs; at epoch end the first one may replace the state. *)
Callback ==
  /\ pend # <<>>
  /\ opt' = IF cfg.poke /\ Head(pend) = <<"epoch_end", 1>> THEN Poke(cfg, opt, ep) ELSE opt
  /\ pend' = Tail(pend)
  /\ UNCHANGED <<cfg, ph, ep, k, step, gs, win, elog, rep, vals, best, cnt, improved, stop, ck>>

ESActive == cfg.patience > 0 /\ cfg.mode \in {"min", "max"}
Better(s) == \/ best = <<>>
             \/ IF cfg.mode = "max" THEN s - best[1] > cfg.minDelta ELSE best[1] - s > cfg.minDelta
Validates(e) == cfg.hasVal /\ cfg.evalEvery > 0 /\ e % cfg.evalEvery = 0

Validate(score) ==
  /\ pend = <<>> /\ ph = "post" /\ Validates(ep)
  /\ vals' = Append(vals, <<ep, score>>)
  /\ LET imp == ESActive /\ Better(score)
     IN /\ improved' = imp
        /\ best' = IF imp THEN <<score>> ELSE best
        /\ cnt' = IF ~ESActive THEN 0 ELSE IF imp THEN 0 ELSE cnt + 1
        /\ stop' = (ESActive /\ ~imp /\ cnt >= cfg.patience)
        /\ ck' = IF imp /\ cfg.dir THEN Save(ck, step, opt.w, 1) ELSE ck
  /\ ep' = ep + 1 /\ ph' = "idle"
  /\ UNCHANGED <<cfg, k, step, gs, win, opt, elog, rep, pend>>

NoValidate ==
  /\ pend = <<>> /\ ph = "post" /\ ~Validates(ep)
  /\ ep' = ep + 1 /\ ph' = "idle"
  /\ UNCHANGED <<cfg, k, step, gs, win, opt, elog, rep, vals, best, cnt, improved, stop, ck, pend>>

Finish ==
  /\ pend = <<>> /\ ph = "idle" /\ (ep = cfg.epochs \/ stop)
  /\ ck' = IF cfg.dir THEN Save(ck, step, opt.w, cfg.keep) ELSE ck
  /\ ph' = "done"
  /\ UNCHANGED <<cfg, ep, k, step, gs, win, opt, elog, rep, vals, best, cnt, improved, stop, pend>>
=============================================================================
