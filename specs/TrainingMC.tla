----------------------------- MODULE TrainingMC -----------------------------
(* Exhaustive check of the training loop on symbolic parameters: the parameter *)
(* "value" is the history of update windows, so the invariants can talk about  *)
(* which batch was used when.                                                  *)
EXTENDS Training, TLC, Json
CONSTANTS MaxEpochs, MaxBatches, MaxScore, GasSet, SaveSet, KeepSet, EvalSet, PatSet, ModeSet, DeltaSet

SymApply(c, o, w) == [o EXCEPT !.w = Append(o.w, w)]
SymReport(c, o, b) == <<b, Len(o.w)>>
SymMean(c, s) == s
SymPoke(c, o, e) == o

Cfgs == [epochs : 0..MaxEpochs, nb : 1..MaxBatches, gas : GasSet, ncb : {1}, dir : {TRUE},
         saveEvery : SaveSet, keep : KeepSet, hasVal : {TRUE}, evalEvery : EvalSet,
         patience : PatSet, mode : ModeSet, minDelta : DeltaSet, poke : {TRUE}]
Sane(c) == /\ (c.patience = 0 \/ c.evalEvery = 0) => (c.mode = "min" /\ c.minDelta = 0)
           /\ c.nb >= c.gas   \* otherwise an epoch reports nothing at all

Init == \E c \in Cfgs : Sane(c) /\ TrainInit(c, [w |-> <<>>, v |-> 0], 0, <<>>)
ValidateSome == \E s \in 0..MaxScore : Validate(s)
Next == EpochStart \/ Step \/ EpochEnd \/ Callback \/ ValidateSome \/ NoValidate \/ Finish
Spec == Init /\ [][Next]_tvars /\ WF_tvars(Next)

RECURSIVE Fl(_)
Fl(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Fl(Tail(s))
Cyc(n) == [i \in 1..n |-> ((i - 1) % cfg.nb) + 1]

(* every batch of every epoch is used exactly once and in loader order; every  *)
(* update consumes exactly G of them; none is pending that should be applied   *)
UsedInOrder == Fl(opt.w) \o win = Cyc(step)
WindowSize  == \A i \in 1..Len(opt.w) : Len(opt.w[i]) = G
Pending     == Len(win) = step % G
StepCount   == /\ ph \in {"idle", "done"} => step = ep * cfg.nb
               /\ ph = "done" => (ep = cfg.epochs \/ stop)
Reports     == ph \in {"idle", "done"} => Len(rep) = IF cfg.nb < G THEN 0 ELSE ep
ReportEach  == cfg.gas <= 1 => \A e \in 1..Len(rep) :
                 rep[e] = [i \in 1..cfg.nb |-> <<i, (e - 1) * cfg.nb + i - 1>>]
(* early stopping, stated over the whole validation history *)
Sc(j) == vals[j][2]
RECURSIVE BestAt(_)   \* best score after j validations
BestAt(j) == IF j = 1 THEN Sc(1)
             ELSE LET b == BestAt(j - 1) IN
                  IF (IF cfg.mode = "max" THEN Sc(j) - b ELSE b - Sc(j)) > cfg.minDelta THEN Sc(j) ELSE b
ImpAt(j) == j = 1 \/ (IF cfg.mode = "max" THEN Sc(j) - BestAt(j - 1) ELSE BestAt(j - 1) - Sc(j)) > cfg.minDelta
StaleRun(j) == j > cfg.patience + 1 /\ \A i \in (j - cfg.patience)..j : ~ImpAt(i)
StopIff == ESActive /\ vals # <<>> => (stop <=> StaleRun(Len(vals)))
NoLate  == ESActive => \A j \in 1..Len(vals) - 1 : ~StaleRun(j)
NoSpuriousStop == ~ESActive => ~stop
ValEpochs == \A j \in 1..Len(vals) : vals[j][1] = (j - 1) * cfg.evalEvery
AllValidated == ph = "done" /\ ~stop /\ cfg.evalEvery > 0 =>
                  Len(vals) = (cfg.epochs + cfg.evalEvery - 1) \div cfg.evalEvery
(* checkpoints *)
CkSound   == \A i \in 1..Len(ck) : Fl(ck[i][2]) = Cyc((ck[i][1] \div G) * G)
CkSorted  == \A i \in 1..Len(ck) - 1 : ck[i][1] < ck[i + 1][1]
CkBound   == Len(ck) <= cfg.keep
CkFinal   == ph = "done" => ck # <<>> /\ ck[Len(ck)] = <<step, opt.w>>
CkRecent  == ph = "run" /\ cfg.saveEvery > 0 /\ cfg.gas <= 1 /\ gs >= cfg.saveEvery =>
               ck # <<>> /\ ck[Len(ck)][1] >= (gs \div cfg.saveEvery) * cfg.saveEvery
Emit == ph = "done" => PrintT(<<"SCEN", ToJson([cfg |-> cfg, scores |-> [j \in 1..Len(vals) |-> Sc(j)]])>>)
Terminates == <>(ph = "done")
=============================================================================
