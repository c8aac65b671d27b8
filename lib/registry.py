"""property id -> function(run) that performs its check."""


def trace_cfg(consts="", spec="Spec"):
    return "SPECIFICATION %s\nCONSTRAINT Mark\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n%s" % (
        spec, ("CONSTANTS " + consts) if consts else "")


def mc_cfg(inv, consts="", spec="Spec", extra=""):
    return "SPECIFICATION %s\n%sCHECK_DEADLOCK FALSE\n%s\n%s" % (
        spec, ("INVARIANTS %s\n" % inv) if inv else "", ("CONSTANTS " + consts) if consts else "", extra)


def loader(part):
    def f(run):
        r = run.design("LoaderMC", mc_cfg("Inv Emit", "MaxN=4 MaxB=3 MaxOps=2"), expect_states=5000)
        sc = run.scenarios(r, limit=None if run.thorough else 1200)
        run.conform("loader.py", "LoaderTrace", trace_cfg(), scen=sc, shards=4, extra=["--part", part])
    return f



TRAIN_OPS = ("ApplyWindow <- %sApply BatchReport <- %sReport EpochMean <- %sMean Poke <- %sPoke\n")
TRAIN_INV = ("UsedInOrder WindowSize Pending StepCount Reports ReportEach StopIff NoLate NoSpuriousStop "
             "ValEpochs AllValidated CkSound CkSorted CkBound CkFinal CkRecent")


def train_mc(run, emit, consts, **kw):
    ops = TRAIN_OPS % (("Sym",) * 4)
    return run.design("TrainingMC", mc_cfg(TRAIN_INV + (" Emit" if emit else ""), ops + consts,
                                           extra="PROPERTIES Terminates"), **kw)


TRAIN_TRACE = trace_cfg(TRAIN_OPS % (("Num",) * 4))


def training(part):
    def f(run):
        scen = None
        if part == "loop":
            train_mc(run, False, "MaxEpochs=3 MaxBatches=3 MaxScore=0 GasSet={0,1} SaveSet={0} KeepSet={1} "
                     "EvalSet={0,1} PatSet={0} ModeSet={\"min\"} DeltaSet={0}")
        elif part == "gas":
            train_mc(run, False, "MaxEpochs=3 MaxBatches=6 MaxScore=0 GasSet={1,2,3} SaveSet={0,1,2,3} KeepSet={2} "
                     "EvalSet={0} PatSet={0} ModeSet={\"min\"} DeltaSet={0}")
        elif part == "es":
            r = train_mc(run, True, "MaxEpochs=%d MaxBatches=1 MaxScore=%d GasSet={0} SaveSet={0} KeepSet={2} "
                         "EvalSet={1,2} PatSet={0,1,2} ModeSet={\"min\"} DeltaSet={0,1}" % (
                             (5, 3) if run.thorough else (5, 2)))
            scen = run.scenarios(r)
            train_mc(run, False, "MaxEpochs=4 MaxBatches=1 MaxScore=2 GasSet={0} SaveSet={0} KeepSet={1} "
                     "EvalSet={1} PatSet={0,1,2} ModeSet={\"max\",\"none\"} DeltaSet={0,1}")
        else:
            r = train_mc(run, True, "MaxEpochs=3 MaxBatches=2 MaxScore=2 GasSet={0,2} SaveSet={0,1,2,3} KeepSet={1,2} "
                         "EvalSet={1,2} PatSet={0,1} ModeSet={\"min\"} DeltaSet={0}")
            scen = run.scenarios(r)
        run.conform("training.py", "TrainingTrace", TRAIN_TRACE, scen=scen, extra=["--part", part])
    return f


def store(run):
    inv = "LastWriteWins Single EmptyRefused"
    r = run.design("StoreMC", mc_cfg(inv + " Emit", "Depth=3 Size=2 Vals={1,2}", extra="PROPERTIES ReadsPure Isolated"))
    if run.thorough:
        run.design("StoreMC", mc_cfg(inv, "Depth=4 Size=2 Vals={1,2}", extra="PROPERTIES ReadsPure Isolated"), workers=8)
    run.conform("store.py", "StoreTrace", trace_cfg(), scen=run.scenarios(r))


def conformal(part):
    def f(run):
        r = run.design("ConformalMC", mc_cfg("CoverSet CoverInt NotVacuous Nested Favours QMono Emit", "MaxN=%d MaxS=3 Den=8" % (
            5 if run.thorough else 4)), workers=8)
        run.conform("conformal.py", "ConformalTrace", trace_cfg(),
                    scen=run.scenarios(r, limit=None if run.thorough else 1500), extra=["--part", part])
    return f


def multivalid(part):
    def f(run):
        r = run.design("MultivalidMC", mc_cfg("ReplayIsState InRange Counts LossIsLoss Progress NoPatchNoChange WorstExists OneShotInRange Emit",
                                              "S=8192 N=3 ValSet={%s} Rounds=%d Atol=65536" % (
                                                  ("320,2432,7936", 3) if run.thorough else ("2432,7936", 2)),
                                              extra="PROPERTIES Ends"), workers=8)
        run.conform("multivalid.py", "MultivalidTrace", trace_cfg("S=8192"),
                    scen=run.scenarios(r, limit=None if run.thorough else 1000), extra=["--part", part])
    return f


METHODS = '{"map","de","swag","laplace","advi","sghmc","csgld"}'

def life(part):
    def f(run):
        c = 'Depth=%d Small=%s Bad=%d Ms=' + METHODS + ' Mix <- Mix_' + part
        inv = "INVARIANTS SavedIsHeld KindRight%s\nPROPERTIES RefusedChangesNothing CalibOnlyCalib FrozenStay Precedence OtherPathsKept\n"
        run.design("LifecycleMC", "SPECIFICATION Spec\n" + inv % "" + "CHECK_DEADLOCK FALSE\nCONSTANTS " + c % (2, "FALSE", 9), workers=8)
        run.design("LifecycleMC", "SPECIFICATION Spec\n" + inv % "" + "CHECK_DEADLOCK FALSE\nCONSTANTS " + c % (
            4 if run.thorough else 3, "TRUE", 9), workers=8)
        n = 1000 if run.thorough else 60
        r = run.simulate("LifecycleMC", "SPECIFICATION SimSpec\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS " + c % (
            5, "FALSE", 1), num=n * 2, depth=7)
        run.conform("life.py", "LifecycleTrace", trace_cfg(), scen=run.scenarios(r, limit=n), shards=8, extra=["--part", part])
    return f


def chain(run):
    inv = "Bounded Increasing OnlySelected AfterBurnin OnlySampling NoneMissed FullIffEnough IsKept Spaced"
    r = run.design("ChainMC", mc_cfg(inv + " Emit", "MaxT=8 MaxN=3", extra="PROPERTIES Finishes"), workers=8)
    if run.thorough:
        run.design("ChainMC", mc_cfg(inv, "MaxT=11 MaxN=4", extra="PROPERTIES Finishes"), workers=8)
    run.conform("chain.py", "ChainTrace", trace_cfg(), scen=run.scenarios(r, limit=900 if run.thorough else 140), shards=8)


def sgmcmc(run):
    inv = "SizesInRange Stationary FullFriction NoMemory NoiseOnlyWhenSampling PerCycle KeptAreNoisy"
    run.design("SgmcmcMC", mc_cfg(inv, "MaxT=13"), workers=8)
    r = run.design("SgmcmcMC", mc_cfg("Emit", "MaxT=1"))
    run.conform("sgmcmc.py", "SgmcmcTrace", trace_cfg(), scen=run.scenarios(r, limit=None if run.thorough else 400), shards=8)


def rng(run):
    run.design("RngMC", mc_cfg("OwnedOnce FutureIsFresh OneOwner", "MaxGets=3 MaxDerived=4 Ops={} Depth=0"), workers=8)
    r = run.design("RngMC", mc_cfg("Emit", 'MaxGets=0 MaxDerived=0 Ops={"post","ens","target","mean","var","logp","prior"} Depth=2', spec="OpSpec"))
    run.conform("rng.py", "RngTrace", trace_cfg(), scen=run.scenarios(r, limit=None if run.thorough else 40), shards=8)


def ensemble(run):
    run.design("EnsembleMC", mc_cfg("Sizes DistinctStarts", "N=2 Cfgs=%s Depth=0 Rich=0" % ("{0,1}" if run.thorough else "{0}"),
                                    extra="PROPERTIES SavedIsRead Isolated MapTouchesNothing"), workers=8)
    r = run.design("EnsembleMC", mc_cfg("Emit", "N=2 Cfgs={0,1,2} Depth=5 Rich=0"), workers=8)
    run.conform("ens.py", "EnsembleTrace", trace_cfg(), scen=run.scenarios(r, limit=400 if run.thorough else 40), shards=8)


def gauss(part):
    def f(run):
        run.design("GaussMC", mc_cfg("VarNonNeg SumIsSum KeepsRank OldestFirst FirstIsZero LastTowardsMean ConstantIsFlat",
                                     "Points={0,2,3,9} MaxN=%d Ranks={2,3,4} Depth=0" % (8 if run.thorough else 7)), workers=8)
        r = run.design("GaussMC", mc_cfg("Emit", "Points={0} MaxN=1 Ranks={2,3,5} Depth=3"))
        run.conform("gauss.py", "GaussTrace", trace_cfg(), scen=run.scenarios(r, limit=None if run.thorough else 72 if part == "swag" else 32),
                    shards=8, extra=["--part", part])
        if run.thorough:
            r = run.design("GaussMC", mc_cfg("Emit", "Points={0} MaxN=1 Ranks={2,3,4,5,6} Depth=4"))
            run.conform("gauss.py", "GaussTrace", trace_cfg(), scen=run.scenarios(r, limit=120), shards=8, extra=["--part", part])
    return f


def predictive(part):
    inv = ("OneRowEach DrawsWhole FlattenWrong RunningIsMixture EpiNonNeg OneDrawNoEpi AllEqualNoEpi TotalIsSum SpreadIsEpi "
           "CredExists CredMonotone CredMode ZeroErrAll ConfMonotone ConfEnds")

    def f(run):
        for p in ("batch",) if part == "batch" else ("mix", "sets"):
            run.design("PredictiveMC", mc_cfg(inv, 'N=6 K=3 Ds={1,2,3} MaxDraws=%d Part="%s"' % (5 if run.thorough and p == "mix" else 3, p)))
        r = run.design("PredictiveMC", mc_cfg("Emit", 'N=6 K=1 Ds={1,2} MaxDraws=1 Part="batch"'))
        n = 28 if part == "batch" else 20
        run.conform("pred.py", "PredictiveTrace", trace_cfg(), scen=run.scenarios(r, limit=None if run.thorough else n), shards=8, extra=["--part", part])
    return f


CHECKS = {
    "C01": training("loop"),
    "C02": training("gas"),
    "C03": training("es"),
    "C04": training("ck"),
    "C05": store,
    "C06": life("save"),
    "C07": life("frz"),
    "C08": life("calib"),
    "C09": life("start"),
    "C10": chain,
    "C11": ensemble,
    "C12": gauss("swag"),
    "C13": loader("src"),
    "C14": loader("ops"),
    "C15": predictive("batch"),
    "C16": predictive("mix"),
    "C17": conformal("sets"),
    "C18": conformal("iv"),
    "C19": conformal("enbpi"),
    "C20": conformal("ad"),
    "C21": multivalid("iter"),
    "C22": multivalid("one"),
    "C24": rng,
    "C26": sgmcmc,
    "C27": gauss("lap"),
}

NOTES = {"*": "Decides the property for the design exhaustively within the small constants given in lib/registry.py, and for "
              "the code on every recorded execution: each event of each run of the real code has to be a step the "
              "specification allows. Trusts TLC, the JSON trace encoding and the fixed-point tolerances stated in the specification."}
