"""Drives whole model lifetimes (fit, calibrate, save, load, new model) on the real
code and records, after every operation, everything the model holds and returns."""
import shutil, contextlib, hashlib
from common import *
import jax, jax.numpy as jnp, optax
import flax.linen as nn
from flax.core import FrozenDict
from flax import traverse_util
from fortuna.prob_model.fit_config.hyperparameters import FitHyperparameters
from fortuna.data.loader import DataLoader
from fortuna.prob_model import (
    ProbClassifier, ProbRegressor, FitConfig, FitOptimizer, FitCheckpointer, FitMonitor, FitProcessor,
    CalibConfig, CalibOptimizer, CalibCheckpointer, CalibMonitor, CalibProcessor,
    MAPPosteriorApproximator, DeepEnsemblePosteriorApproximator, SWAGPosteriorApproximator,
    LaplacePosteriorApproximator, ADVIPosteriorApproximator, SGHMCPosteriorApproximator,
    CyclicalSGLDPosteriorApproximator)
from fortuna.prob_model.posterior.sgmcmc.sgmcmc_step_schedule import constant_schedule

S = 100000
RS = np.random.RandomState(0)
X = RS.randn(8, 2).astype("float32")
YC = (np.arange(8) % 3).astype("int32")
YR = RS.randn(8, 1).astype("float32")


def cache(a):
    d = os.path.join(os.path.dirname(os.path.abspath(a.work)), "jaxcache")
    jax.config.update("jax_compilation_cache_dir", d)
    jax.config.update("jax_persistent_cache_min_compile_time_secs", 0)
    jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)


class Net(nn.Module):
    out: int = 3
    bn: bool = False

    @nn.compact
    def __call__(self, x, train=False, **kw):
        x = nn.Dense(2, name="zfirst", use_bias=not self.bn)(x)
        if self.bn:
            x = nn.BatchNorm(use_running_average=not train, name="mid", momentum=.5)(x)
        x = jnp.tanh(x)
        return nn.Dense(self.out, name="alast")(x)


class Calib(nn.Module):
    @nn.compact
    def __call__(self, x, **kw):
        t = self.param("temp", nn.initializers.zeros, (1,))
        if x.shape[-1] == 2:
            return jnp.concatenate((x[..., :1], x[..., 1:] + t), -1)
        return x * jnp.exp(-t)


FRZ = {
    "za": lambda path, v: "frozen" if "zfirst" in path else "trainable",
    "al": lambda path, v: "frozen" if "alast" in path else "trainable",
    "bias": lambda path, v: "frozen" if path[-1] == "bias" else "trainable",
    "llv": lambda path, v: "frozen" if "lik_log_var" in path else "trainable",
}
ISF = {"za": lambda p: "zfirst" in p, "al": lambda p: "alast" in p, "bias": lambda p: p.endswith("bias"),
       "llv": lambda p: p.startswith("lik_log_var")}


def fxi(x, s):
    """Fixed point, with markers that remain integers for what has diverged."""
    return [q if isinstance(q, int) else {"nan": 2 * 10 ** 9, "-inf": -2 * 10 ** 9}.get(q, 2 * 10 ** 9 - 1) for q in fx(np.ravel(np.asarray(x)), s)]


class Interner:
    def __init__(self):
        self.d = {}

    def __call__(self, x):
        if x is None:
            return 0
        if isinstance(x, tuple):
            k = x
        else:
            x = np.asarray(x)
            k = (x.shape, str(x.dtype), x.tobytes())
        return self.d.setdefault(k, len(self.d) + 1)

    def tree(self, t):
        """One token for a whole tree."""
        ls = flat(t)
        if not ls:
            return 0
        return self(tuple((k, self(v)) for k, v in sorted(ls.items())))


def plain(t):
    return {k: plain(v) for k, v in t.items()} if hasattr(t, "items") else t


def flat(t, pre=""):
    if t is None:
        return {}
    if hasattr(t, "items"):
        r = {}
        for k, v in t.items():
            r.update(flat(v, pre + "/" + str(k) if pre else str(k)))
        return r
    if isinstance(t, (list, tuple)):
        return flat({str(i): v for i, v in enumerate(t)}, pre)
    return {pre: t}


def point(params):
    """(leaf name -> array of the point, leaf name -> array of everything else)."""
    pt, rest = {}, {}
    for k, v in flat(params).items():
        parts = k.split("/")
        s = [p for p in parts if p in ("mean", "log_std", "hess_lik_diag")]
        name = "/".join(p for p in parts if p not in ("mean", "log_std", "hess_lik_diag", "params"))
        if s and s[0] != "mean":
            rest[k] = v
        else:
            pt[name] = v
    return pt, rest


def member(st, tok):
    pt, rest = point(st.params)
    x = dict(rest)
    for n in ("mean", "std", "dev", "prior_log_var"):
        if getattr(st, n, None) is not None:
            x["." + n] = getattr(st, n)
    if getattr(st, "_encoded_which_params", None) is not None:
        x[".w"] = st._encoded_which_params
    fz = getattr(st, "frozen_params", None)
    if fz is not None and flat(fz):
        x[".fz"] = fz
    o = tuple(sorted(tok(v) for v in jax.tree_util.tree_leaves(st.opt_state)))
    return dict(pt={k: tok(v) for k, v in pt.items()}, x=tok.tree(x), m=tok.tree(st.mutable), c=tok.tree(st.calib_params),
                cm=tok.tree(st.calib_mutable), o=tok(("o", int(st.step)) + o))


class Life:
    def __init__(self, sc, a):
        self.sc, self.a = sc, a
        self.m = sc["method"]
        self.reg = sc["reg"]
        self.tok = Interner()
        self.size = (sc.get("size") or 2) if self.m in ("de", "sghmc", "csgld") else 1
        self.dir = os.path.join(a.work, sc["name"])
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        y = YR if self.reg else YC
        self.train = DataLoader.from_array_data((X, y), batch_size=4)
        self.test = DataLoader.from_array_data((X[:4], y[:4]), batch_size=3)
        self.seed = sc["seed"]
        self.seedstep = 1
        self.prob = self.build(self.m)

    def P(self, p):
        return os.path.join(self.dir, p) if p else None

    def approx(self, m):
        n = self.size
        return dict(
            map=lambda: MAPPosteriorApproximator(), de=lambda: DeepEnsemblePosteriorApproximator(ensemble_size=n),
            swag=lambda: SWAGPosteriorApproximator(rank=2), laplace=lambda: LaplacePosteriorApproximator(),
            advi=lambda: ADVIPosteriorApproximator(),
            sghmc=lambda: SGHMCPosteriorApproximator(n_samples=n, n_thinning=1, burnin_length=6 - n, step_schedule=constant_schedule(1e-3)),
            csgld=lambda: CyclicalSGLDPosteriorApproximator(n_samples=n, n_thinning=1, cycle_length=8, exploration_ratio=(5.9 - n) / 8,
                                                            init_step_size=1e-3))[m]()

    def build(self, m, seed=None):
        if seed is None:
            self.seed += self.seedstep
            seed = self.seed
        kw = dict(posterior_approximator=self.approx(m), output_calibrator=Calib() if self.sc["cal"] else None, seed=seed)
        if self.reg:
            return ProbRegressor(model=Net(1, self.sc["bn"]), likelihood_log_variance_model=Net(1, False), **kw)
        return ProbClassifier(model=Net(3, self.sc["bn"]), **kw)

    def fitcfg(self, lr, n, **kw):
        lr = lr / 10 if self.reg else lr
        opt = dict(method=optax.sgd(lr, momentum=.9 if self.sc["mom"] else None), n_epochs=n)
        clip = kw.get("clip")
        if kw.get("frz", "none") != "none" and not kw.get("twin"):
            opt["freeze_fun"] = FRZ[kw["frz"]]
        if kw.get("twin"):      # the same optimization, nothing frozen but the updates of the frozen part dropped
            f = FRZ[kw["frz"]]
            o = opt["method"] if clip is None else optax.chain(optax.clip_by_global_norm(clip), opt["method"])
            opt["method"] = optax.multi_transform(
                {"trainable": o, "frozen": optax.set_to_zero()},
                lambda t: FrozenDict(traverse_util.path_aware_map(f, t.unfreeze() if hasattr(t, "unfreeze") else t)))
            clip = None
        return FitConfig(
            hyperparameters=FitHyperparameters(max_grad_norm=clip),
            optimizer=FitOptimizer(**opt),
            checkpointer=FitCheckpointer(save_checkpoint_dir=kw.get("dir"), restore_checkpoint_path=kw.get("restore"),
                                         start_from_current_state=kw.get("cur", False), dump_state=kw.get("dump", False),
                                         save_every_n_steps=kw.get("every"), keep_top_n_checkpoints=kw.get("keep", 2)),
            monitor=FitMonitor(verbose=False, disable_training_metrics_computation=True),
            processor=FitProcessor(disable_jit=self.sc["nojit"]))

    def files(self, p):
        """What each file under a directory holds."""
        r = {}
        for d, _, fs in os.walk(self.P(p) or "/nonexistent"):
            for f in fs:
                q = os.path.join(d, f)
                r[q] = hashlib.sha1(open(q, "rb").read()).hexdigest()
        return r

    # ---- checkpoints prepared beforehand by other models
    def given(self, p, kind):
        out = []
        n = self.size
        for i in range(n):
            q = self.build(kind, seed=900 + 10 * self.seed + i)
            if kind == "map":
                q.train(self.train, fit_config=self.fitcfg(.1, 1))
            else:
                q.train(self.train, fit_config=self.fitcfg(.1, 3), map_fit_config=self.fitcfg(.1, 1) if kind == "laplace" else None)
            d = self.P(p)
            if self.m == "de":
                d = os.path.join(d, str(i))
            elif self.m in ("sghmc", "csgld"):
                d = os.path.join(d, "c")
                if i < n - 1:
                    continue
            q.save_state(d)
            out.append(member(q.posterior.state.get(), self.tok))
            if self.m not in ("de", "sghmc", "csgld"):
                break
        return dict(kind={"map": "MAPState", "laplace": "LaplaceState", "advi": "ADVIState"}[kind], mem=out, frz="none", lr0=False)

    # ---- observation
    def states(self, prob=None):
        s = (prob or self.prob).posterior.state
        if s is None:
            return []
        if self.m in ("de", "sghmc", "csgld"):
            return [s.get(i) for i in range(self.size)]
        return [s.get()]

    def observe(self, outs=True):
        try:
            sts = self.states()
        except Exception as e:
            return [dict(kind="error " + type(e).__name__, mem=[], out=dict(mean=[], lp=[], smp=[], smpv=[], cv=[]))]
        if not sts:
            return []
        tok = self.tok
        mem = [member(s, tok) for s in sts]
        kinds = sorted(set(type(s).__name__ for s in sts))
        out = dict(mean=[], lp=[], smp=[], smpv=[], cv=[])
        out["cv"] = fxi(np.concatenate([np.ravel(v) for _, v in sorted(flat(sts[0].calib_params).items())] or [np.zeros(0)]), S)
        if outs:
            k = jax.random.PRNGKey(5)
            with (contextlib.nullcontext() if self.sc["jitobs"] else jax.disable_jit()):
                il = self.test.to_inputs_loader()
                out["mean"] = fxi(np.asarray(self.prob.predictive.mean(il, n_posterior_samples=2, rng=k, distribute=False)).ravel(), S)
                out["lp"] = fxi(np.asarray(self.prob.predictive.log_prob(self.test, n_posterior_samples=2, rng=k, distribute=False)).ravel(), S)
                for j in range(3):
                    s = self.prob.posterior.sample(rng=jax.random.PRNGKey(100 + j), inputs=X[:4])
                    pt = flat(s.params)
                    pt = {n.replace("params/", ""): v for n, v in pt.items()}
                    out["smp"].append(dict(pt={n: tok(v) for n, v in pt.items()}, m=tok.tree(s.mutable), c=tok.tree(s.calib_params),
                                           cm=tok.tree(s.calib_mutable)))
                    out["smpv"] += fxi(np.concatenate([np.ravel(pt[n]) for n in sorted(pt)]), S)
        return [dict(kind=kinds[0] if len(kinds) == 1 else "mixed", mem=mem, out=out)]


def describe(c):
    """Everything a configuration object holds, by identity for leaves."""
    r = {}
    for k, v in vars(c).items():
        if hasattr(v, "__dict__") and type(v).__module__.startswith("fortuna"):
            r[k] = describe(v)
        elif isinstance(v, (list, tuple)) and not hasattr(v, "_fields"):
            r[k] = [id(x) for x in v]
        else:
            r[k] = id(v)
    return r


def fit(L, op, e):
    m = L.m
    frz = e["frz"]
    n = 1 if op["short"] else 3
    lr = 0.0 if op["lr0"] else .1
    ap = L.prob.posterior.posterior_approximator
    if m == "sghmc":
        ap.step_schedule = constant_schedule(0.0 if op["lr0"] else 1e-3)
    if m == "csgld":
        ap.init_step_size = 0.0 if op["lr0"] else 1e-3
    cfg = L.fitcfg(lr, n, frz=frz, dir=L.P(op["dir"]), restore=L.P(op["restore"]), cur=op["cur"], dump=op["dump"],
                   every=e["every"] or None, keep=e["keep"], clip=e["clip"] or None)
    tw = e["frz"] != "none" and op["restore"] and op["restore"] != op["dir"] and m in ("map", "de", "swag")
    e["twin"] = []
    if tw:
        q, tw = attempt(lambda: L.build(m, seed=5))
        tcfg = L.fitcfg(lr, n, frz=frz, restore=L.P(op["restore"]), clip=e["clip"] or None, twin=True)
        _, tw = attempt(lambda: q.train(L.train, fit_config=tcfg))
        tw = q if tw is None else None
    mp = L.P("prelim")
    shutil.rmtree(mp, ignore_errors=True)
    mcfg = L.fitcfg(.1, 1, dir=mp, keep=1) if op["map"] else None
    before = (describe(cfg), describe(mcfg) if mcfg else None)
    old = L.files(op["dir"])
    r, x = attempt(lambda: L.prob.train(L.train, fit_config=cfg, map_fit_config=mcfg))
    e["ok"], e["exc"] = x is None, x or ""
    e["cfgsame"] = before == (describe(cfg), describe(mcfg) if mcfg else None)
    if tw and x is None:
        for i, (a, b) in enumerate(zip(L.states(), L.states(tw))):
            pa, pb = point(a.params)[0], point(b.params)[0]
            e["twin"] += [dict(leaf=k, i=i + 1, got=fxi(np.ravel(pa[k]), S), want=fxi(np.ravel(pb[k]), S)) for k in sorted(pa)]
    s = r["fit_status"] if r else {}
    e["nstatus"] = len(s) if isinstance(s, list) else 0
    e["mapst"] = []
    if mcfg and x is None and os.path.isdir(mp):
        st = L.prob.posterior.restore_checkpoint(mp)
        e["mapst"] = [{k: L.tok(v) for k, v in point(st.params)[0].items()}]
    e["hasck"], e["cks"] = False, []
    if x is None and op["dir"] and m != "laplace":
        d = L.P(op["dir"])
        where = [(1, d)]
        if m == "de":
            where = [(i + 1, os.path.join(d, str(i))) for i in range(L.size)]
        elif m in ("sghmc", "csgld"):
            where = [(L.size, os.path.join(d, "c"))]
        for i, w in where:
            for f in sorted(os.listdir(w)):
                if f.startswith("checkpoint_") and old.get(os.path.join(w, f)) != L.files(op["dir"])[os.path.join(w, f)]:
                    st = L.prob.posterior.restore_checkpoint(os.path.join(w, f))
                    e["cks"].append(dict(i=i, step=int(st.step), pt={k: L.tok(v) for k, v in point(st.params)[0].items()}))
        e["hasck"] = True


def calib(L, op, e):
    rp = L.P(op["restore"])
    if rp and L.m in ("de", "sghmc", "csgld") and op["restore"] != "K":
        rp = os.path.join(rp, "0")
    cfg = CalibConfig(optimizer=CalibOptimizer(method=optax.sgd(0. if op["lr0"] else .5), n_epochs=2),
                      checkpointer=CalibCheckpointer(save_checkpoint_dir=L.P(op["dir"]), dump_state=op["dump"], restore_checkpoint_path=rp),
                      monitor=CalibMonitor(verbose=False),
                      processor=CalibProcessor(n_posterior_samples=2, disable_jit=L.sc["nojit"]))
    before = describe(cfg)
    _, x = attempt(lambda: L.prob.calibrate(L.train, calib_config=cfg))
    e["ok"], e["exc"] = x is None, x or ""
    e["cfgsame"] = before == describe(cfg)


def scenarios(a):
    rnd = random.Random(a.seed * 101 + len(a.part))
    out = []
    for j, s in enumerate(json.load(open(a.scen))):
        reg = rnd.random() < .35
        bn = rnd.random() < .4
        out.append(dict(name="%s-%d" % (s["method"], j), method=s["method"], ops=s["ops"], reg=reg, bn=bn,
                        cal=rnd.random() < .88 if a.part in ("calib",) else rnd.random() < .8 or any(o["a"] == "calib" for o in s["ops"]),
                        mom=rnd.random() < .3, nojit=rnd.random() < .2, jitobs=rnd.random() < .15, seed=100 * j + 1,
                        size=rnd.choice([2, 2, 3]), frz=rnd.choice(["za", "al", "bias"] + (["llv"] * 2 if reg else [])), rs=rnd.randrange(10 ** 6)))
    return out


def run(sc, a):
    cache(a)
    L = Life(sc, a)
    rnd = random.Random(sc["rs"])
    ev, cfg = [], {"name": sc["name"]}
    try:
        disk = {}
        used = [o.get("restore") for o in sc["ops"]]
        if "M" in used:
            disk["M"] = L.given("M", "map")
        if "W" in used:
            disk["W"] = L.given("W", "advi" if L.m == "laplace" else "laplace")
        js = L.prob.joint.init((2,))
        pts = point(js.params)[0]
        cfg.update(method=L.m, size=L.size, cal=sc["cal"], paths=["A", "B", "M", "W", "K"], disk=disk, tol=3, leaves=sorted(pts),
                   random=sorted(k for k in pts if k.endswith("kernel")), frozen={f: sorted(k for k in pts if ISF[f](k)) for f in FRZ},
                   sc={k: v for k, v in sc.items() if k not in ("ops", "name")})
        for op in sc["ops"]:
            op = {**dict(frz="none", short=False, dump=False, dir="", lr0=False, restore=""), **op}
            e = dict(op)
            if op["a"] == "fit":
                e["frz"] = sc["frz"] if op["frz"] != "none" else "none"
                e["every"], e["keep"] = (rnd.choice([0, 1, 2]), rnd.choice([1, 2, 9])) if op["dir"] else (0, 2)
                e["clip"] = rnd.choice([0, 0, .3])
                if op["dir"] and any("checkpoint_" in f for _, _, fs in os.walk(L.P(op["dir"])) for f in fs):
                    e["every"] = 0     # flax refuses to write steps older than those already there
                fit(L, op, e)
            elif op["a"] == "calib":
                calib(L, op, e)
            elif op["a"] == "save":
                _, x = attempt(lambda: L.prob.save_state(L.P(op["path"])))
                e["ok"], e["exc"] = x is None, x or ""
            elif op["a"] == "load":
                _, x = attempt(lambda: L.prob.load_state(L.P(op["path"])))
                e["ok"], e["exc"] = x is None, x or ""
            else:
                L.prob = L.build(L.m)
                e["ok"], e["exc"] = True, ""
            if e["exc"]:
                e["why"] = WHY[0] if a.tier == "quick" else WHY[1]
            e["obs"] = L.observe()
            ev.append(e)
    except Exception as x:
        raise Partial(cfg, ev, x)
    finally:
        shutil.rmtree(L.dir, ignore_errors=True)
    return cfg, ev


if __name__ == "__main__":
    main(scenarios, run)
