"""Runs the real training loop (MAP on a linear one-hot model) and records what
callbacks, checkpoints and the returned status show."""
import os, sys, shutil
from common import *
import jax, jax.numpy as jnp, optax
import flax.linen as nn
from flax.core import FrozenDict
from fortuna.data.loader import DataLoader
from fortuna.prob_model import ProbRegressor, MAPPosteriorApproximator
from fortuna.prob_model import FitConfig, FitOptimizer, FitCheckpointer, FitMonitor, FitProcessor
from fortuna.prob_model.fit_config.hyperparameters import FitHyperparameters
from fortuna.prob_model.fit_config.callback import FitCallback
from fortuna.prob_model.prior import IsotropicGaussianPrior

S = 1024


class Lin(nn.Module):
    @nn.compact
    def __call__(self, x, train=False, **kw):
        return nn.Dense(1, use_bias=False, kernel_init=nn.initializers.zeros)(x)


class Zero(nn.Module):
    @nn.compact
    def __call__(self, x, train=False, **kw):
        c = self.param("c", nn.initializers.zeros, (1,))
        return jnp.zeros((x.shape[0], 1)) + 0.0 * jax.lax.stop_gradient(c)


def psum(preds, targets):
    return preds.sum()


def tsum(preds, targets):
    return targets.sum()


def probe(preds, targets):
    return preds.mean()


def wvec(state):
    p = state.params
    p = p.unfreeze() if hasattr(p, "unfreeze") else p
    return np.asarray(p["model"]["params"]["Dense_0"]["kernel"]).ravel()


def setw(state, i, v):
    p = state.params.unfreeze()
    k = p["model"]["params"]["Dense_0"]["kernel"]
    p["model"]["params"]["Dense_0"]["kernel"] = k.at[i, 0].set(v)
    return state.replace(params=FrozenDict(p))


def ckpts(d):
    if not d or not os.path.isdir(d):
        return []
    return sorted(int(f.split("_")[1]) for f in os.listdir(d)
                  if f.startswith("checkpoint_") and f.split("_")[1].isdigit())


class Rec(FitCallback):
    def __init__(self, ev, cb, d, script):
        self.ev, self.cb, self.d, self.script, self.ep = ev, cb, d, script, 0

    def log(self, a, state):
        r = dict(a=a, cb=self.cb, step=int(state.step), w=fx(wvec(state), S))
        if a == "epoch_end":
            r["ck"] = ckpts(self.d)
        self.ev.append(r)
        if len(self.ev) > 3000:
            raise RuntimeError("too many callback invocations")

    def training_epoch_start(self, state):
        self.log("epoch_start", state)
        return state

    def training_step_end(self, state):
        self.log("step_end", state)
        return state

    def training_epoch_end(self, state):
        if self.script is not None and self.cb == 1:
            state = setw(state, 0, float(self.script[self.ep]))
            self.ep += 1
        self.log("epoch_end", state)
        return state


def mk(rnd, sizes, dup=False):
    """N rows one-hot, cut into batches of the given sizes."""
    N = sum(sizes)
    idx = list(range(1, N + 1))
    if dup:
        idx = [rnd.randint(1, N) for _ in idx]
    ys = [rnd.choice([-1, 1]) * rnd.randint(1, 6) for _ in idx]
    out, j = [], 0
    for s in sizes:
        out.append([[idx[t], ys[t]] for t in range(j, j + s)])
        j += s
    return out


def scenarios(a):
    rnd = random.Random(a.seed * 7919 + 3)
    part = a.part
    out = []
    big = a.tier != "quick"
    base = dict(gas=0, clip=0, mom=False, ncb=1, dir=False, saveEvery=0, keep=2, hasVal=False, evalEvery=1,
                patience=0, minDelta=0, poke=False, script=None, metrics=True, nometrics=False, jit=True,
                prior=[0, 1], epochs=3, shuffle=False, monitor="val_loss", resume=0, dup=False)

    def add(name, **kw):
        sc = dict(base)
        sc.update(kw)
        sc["name"] = "%s-%d" % (name, len(out))
        sc.setdefault("sizes", [2, 2, 2])
        sc["rs"] = rnd.randrange(10 ** 6)
        out.append(sc)

    if part in ("", "loop"):
        add("plain")
        add("ragged", sizes=[3, 3, 1], epochs=2)
        add("one-batch", sizes=[4], epochs=4)
        add("two-callbacks", ncb=2, poke=True, script="rand", epochs=4)
        add("no-callbacks", ncb=0, sizes=[2, 1, 3])
        add("momentum", mom=True, sizes=[2, 2, 1], epochs=3, ncb=2)
        add("prior", prior=[1, 2], sizes=[1, 2, 3], epochs=2)
        add("eager", jit=False, sizes=[2, 1], epochs=2, mom=True, ncb=2)
        add("nometrics", nometrics=True, hasVal=True, vsizes=[2, 1])
        add("nometricfun", metrics=False, hasVal=True, vsizes=[1, 2])
        add("val", hasVal=True, vsizes=[2, 2, 1], epochs=3, evalEvery=2)
        add("shuffled", shuffle=True, sizes=[3, 3, 3, 1], epochs=3)
        add("resume", resume=1, mom=True, sizes=[2, 3], epochs=2)
        add("resume-ck", resume=1, dir=True, saveEvery=2, sizes=[2, 3], epochs=2)
        add("zero", epochs=0, dir=False)
        add("dup", dup=True, sizes=[3, 2, 3])
        for _ in range(12 if not big else 80):
            add("rand", sizes=[rnd.randint(1, 3) for _ in range(rnd.randint(1, 4))], epochs=rnd.randint(1, 4),
                ncb=rnd.randint(0, 3), mom=rnd.random() < .5, prior=rnd.choice([[0, 1], [1, 1], [1, 2], [2, 1]]),
                jit=rnd.random() < .8, hasVal=rnd.random() < .5, vsizes=[rnd.randint(1, 3) for _ in range(rnd.randint(1, 3))],
                evalEvery=rnd.randint(0, 3), shuffle=rnd.random() < .3, resume=int(rnd.random() < .2), dup=rnd.random() < .3)
    if part in ("", "gas"):
        for k in (2, 3, 4):
            add("gas", gas=k, sizes=[1] * (2 * k), epochs=2, ncb=1)
        add("gas1", gas=1, sizes=[2, 2], epochs=2)
        add("gas-prior", gas=2, sizes=[2, 1, 2, 1], prior=[1, 1], epochs=2, mom=True)
        add("gas-eager", gas=2, sizes=[1, 2, 1, 2], jit=False, epochs=2, ncb=2)
        add("gas-val", gas=2, sizes=[1, 1, 1, 1], hasVal=True, vsizes=[2, 1], epochs=3)
        add("gas-carry", gas=2, sizes=[1, 2, 1], epochs=4, mom=True)
        add("gas-ck", gas=2, sizes=[1, 1, 1, 1], dir=True, saveEvery=2, keep=3, epochs=3)
        add("gas-long", gas=3, sizes=[1, 2], epochs=4, mom=True, ncb=2)
        add("gas-long", gas=5, sizes=[1, 1], epochs=3, dir=True, saveEvery=1, hasVal=True, vsizes=[2])
        add("gas-long", gas=2, sizes=[3], epochs=5, jit=False)
        add("gas-resume", gas=2, sizes=[1, 1, 2, 1], resume=1, epochs=2)
        add("clip", clip=2 * S, sizes=[1, 1, 1, 2], epochs=3)
        add("clip-loose", clip=400 * S, sizes=[2, 2], epochs=2)
        add("clip-gas", clip=3 * S, gas=2, sizes=[1, 1, 2, 1], epochs=3)
        add("clip-mom", clip=S, mom=True, sizes=[2, 1], epochs=3)
        add("clip-eager", clip=2 * S, jit=False, sizes=[2, 1], epochs=2)
        add("gas-dup", gas=2, dup=True, sizes=[2, 2, 2, 2], epochs=3)
        for _ in range(12 if not big else 80):
            k = rnd.randint(2, 4)
            nb = k * rnd.randint(1, 3)
            add("rgas", gas=k, sizes=[rnd.randint(1, 2) for _ in range(nb)][:8 if k != 3 else 9], epochs=rnd.randint(1, 3),
                mom=rnd.random() < .5, clip=rnd.choice([0, 0, S, 4 * S]), prior=rnd.choice([[0, 1], [1, 2]]),
                jit=rnd.random() < .8, ncb=rnd.randint(0, 2), dup=rnd.random() < .4)
    if part in ("es", "ck") and a.scen:
        sc = json.load(open(a.scen))
        rnd.shuffle(sc)
        n = (26 if part == "es" else 22) if not big else 260
        seen = 0
        for s in sc:
            c, scores = s["cfg"], s["scores"]
            if part == "es" and (c["patience"] == 0 and rnd.random() < .9):
                continue
            if part == "ck" and len(scores) < 1:
                continue
            # scores are given per validation; between validations any value will do
            ev = max(1, c["evalEvery"])
            script = []
            for e in range(c["epochs"]):
                j = e // ev
                script.append(scores[j] if e % ev == 0 and j < len(scores) else 3)
            add("gen", epochs=c["epochs"], sizes=[1] * c["nb"] if part == "es" else [2] * c["nb"], ncb=1,
                dir=True, saveEvery=c["saveEvery"], keep=c["keep"], hasVal=True, vsizes=[1, 1],
                evalEvery=c["evalEvery"], patience=c["patience"], minDelta=c["minDelta"], poke=True,
                script=script, monitor="val_probe", vprobe=True, jit=seen % 5 != 0, gas=c["gas"])
            seen += 1
            if seen >= n:
                break
        if part == "es":
            for _ in range(6 if not big else 30):
                n = rnd.randint(5, 9)
                add("long", epochs=n, sizes=[1, 1], hasVal=True, vsizes=[1], evalEvery=rnd.randint(1, 2),
                    patience=rnd.randint(1, 3), minDelta=rnd.choice([0, 1]), poke=True, dir=rnd.random() < .5,
                    script=[rnd.randint(-3, 3) for _ in range(n)], monitor="val_probe", vprobe=True)
            add("inactive", epochs=5, sizes=[1], hasVal=True, vsizes=[1], patience=-1, poke=True,
                script=[1, 2, 3, 4, 5], monitor="val_probe", vprobe=True, dir=True)
            add("inactive-none", epochs=5, sizes=[1], hasVal=True, vsizes=[1], patience=None, poke=True,
                script=[1, 2, 3, 4, 5], monitor="val_probe", vprobe=True)
            add("noval", epochs=4, sizes=[1], hasVal=False, patience=1, poke=True, script=[1, 2, 3, 4])
            add("es-loss", epochs=6, sizes=[2, 2], hasVal=True, vsizes=[2, 2], patience=1)
            add("es-loss", epochs=6, sizes=[2, 2], hasVal=True, vsizes=[2, 1], patience=2, evalEvery=2)
            add("delta-float", epochs=6, sizes=[1], hasVal=True, vsizes=[1], patience=1, minDelta=.5, poke=True,
                script=[4, 3.5, 3.25, 2.5, 2.25, 2.0], monitor="val_probe", vprobe=True)
        else:
            for _ in range(10 if not big else 60):
                nb = rnd.randint(1, 4)
                add("cad", epochs=rnd.randint(1, 4), sizes=[1] * nb, dir=True, saveEvery=rnd.randint(0, 5),
                    keep=rnd.randint(1, 4), ncb=1, resume=int(rnd.random() < .4), jit=rnd.random() < .7,
                    hasVal=rnd.random() < .3, vsizes=[1])
            add("nodir", epochs=2, sizes=[1, 1], dir=False, saveEvery=1)
            add("dump", epochs=2, sizes=[1, 1], dir=True, saveEvery=1, dump=True)
            add("dump-nosave", epochs=2, sizes=[1, 1], dir=True, saveEvery=0, dump=True, keep=3)
    return out


def status_list(st, k, scale=S, off=0.0):
    if k not in st:
        return []
    return [fx(float(v) - off, scale) for v in np.atleast_1d(np.asarray(st[k]))]


def run(sc, a):
    ev = []
    cfg = {}
    try:
        return _run(sc, a, cfg, ev)
    except Partial:
        raise
    except Exception as e:
        raise Partial(cfg or dict(sc), ev, e)


def _run(sc, a, cfg, ev):
    rnd = random.Random(sc["rs"])
    d = os.path.join(a.work, "ck_" + sc["name"]) if sc["dir"] else None
    if d:
        shutil.rmtree(d, ignore_errors=True)
    batches = mk(rnd, sc["sizes"], sc["dup"])
    N = sum(sc["sizes"])
    eye = np.eye(N, dtype=np.float32)

    def arrays(bs):
        return [(eye[[r[0] - 1 for r in b]], np.array([[float(r[1])] for r in b], dtype=np.float32)) for b in bs]

    if sc["shuffle"]:
        x = np.concatenate([p[0] for p in arrays(batches)])
        y = np.concatenate([p[1] for p in arrays(batches)])
        ld = DataLoader.from_array_data((x, y), batch_size=max(sc["sizes"]), shuffle=True)
        batches = [[[int(np.argmax(xi)) + 1, int(yi[0])] for xi, yi in zip(xb, yb)] for xb, yb in ld]
    else:
        arrs = arrays(batches)
        ld = DataLoader.from_callable_iterable(lambda: iter(arrs))
    vld, vb = None, []
    if sc["hasVal"]:
        vb = []
        for s in sc["vsizes"]:
            vb.append([[1 if sc.get("vprobe") else rnd.randint(1, N), rnd.randint(-6, 6)] for _ in range(s)])
        va = arrays(vb)
        vld = DataLoader.from_callable_iterable(lambda: iter(va))
    pn, pd = sc["prior"]
    lv = float(np.log(pd / pn)) if pn else 60.0
    lrn, lrd = 1, 4 * N
    if pn == 0:
        prior = IsotropicGaussianPrior(log_var=lv)
    else:
        prior = IsotropicGaussianPrior(log_var=lv)
    nv = sum(len(b) for b in vb)
    const_t = N * .5 * np.log(2 * np.pi) + .5 * (N + 1) * (np.log(2 * np.pi) + lv)
    const_v = nv * .5 * np.log(2 * np.pi) + .5 * (N + 1) * (np.log(2 * np.pi) + lv)

    prob = ProbRegressor(model=Lin(), likelihood_log_variance_model=Zero(), prior=prior,
                         posterior_approximator=MAPPosteriorApproximator(), output_calibrator=None)
    script = sc["script"]
    if script == "rand":
        script = [rnd.randint(-4, 4) for _ in range(sc["epochs"])]
    mets = ((psum, tsum) if not sc.get("vprobe") else (psum, tsum, probe)) if sc["metrics"] else None

    def config(cbs, first=True, poke=True):
        return FitConfig(
            optimizer=FitOptimizer(method=optax.sgd(lrn / lrd, momentum=.5 if sc["mom"] else None), n_epochs=sc["epochs"]),
            checkpointer=FitCheckpointer(save_checkpoint_dir=d, save_every_n_steps=sc["saveEvery"] or None,
                                         keep_top_n_checkpoints=sc["keep"], start_from_current_state=not first,
                                         dump_state=bool(sc.get("dump"))),
            monitor=FitMonitor(metrics=mets, early_stopping_patience=sc["patience"],
                               early_stopping_monitor=sc["monitor"], early_stopping_min_delta=float(sc["minDelta"]),
                               eval_every_n_epochs=sc["evalEvery"],
                               disable_training_metrics_computation=sc["nometrics"], verbose=False),
            processor=FitProcessor(disable_jit=not sc["jit"]),
            hyperparameters=FitHyperparameters(max_grad_norm=sc["clip"] / S if sc["clip"] else None,
                                               gradient_accumulation_steps=sc["gas"] or None),
            callbacks=cbs)

    w0, step0, ck0 = [0] * N, 0, []
    if sc["resume"]:
        kw = config(None)
        kw.monitor.early_stopping_patience = 0
        prob.train(ld, fit_config=kw)
        st = prob.posterior.state.get()
        w0, step0 = fx(wvec(st), S), int(st.step)
        ck0 = [[s, fx(wvec(restored(prob, d, s)), S)] for s in ckpts(d)]
    cfg.update(N=N, NV=nv, batches=batches, vbatches=vb, nb=len(batches), lrn=lrn, lrd=lrd, pn=pn, pd=pd, mom=sc["mom"],
               gas=sc["gas"], clip=sc["clip"], ncb=sc["ncb"], dir=sc["dir"], saveEvery=sc["saveEvery"],
               keep=sc["keep"], hasVal=sc["hasVal"], evalEvery=sc["evalEvery"],
               patience=sc["patience"] if sc["patience"] is not None else 0, mode="min", minDelta=int(sc["minDelta"] * 2 ** 20),
               poke=sc["poke"], script=[], epochs=sc["epochs"], w0=w0, step0=step0, ck0=ck0, metrics=sc["metrics"],
               nometrics=sc["nometrics"], tol=5 if not sc["clip"] else 24, ltol=400, name=sc["name"])
    if script:
        # half-unit scripts are scaled by the fixed point, so keep them integral there
        cfg["script"] = [int(s) for s in script] if all(float(s).is_integer() for s in script) else \
            [int(round(s * S)) for s in script]
        cfg["scriptScaled"] = not all(float(s).is_integer() for s in script)
    else:
        cfg["scriptScaled"] = False
    cbs = [Rec(ev, k + 1, d, script if sc["poke"] else None) for k in range(sc["ncb"])]
    status = prob.train(ld, val_data_loader=vld, fit_config=config(cbs or None, first=not sc["resume"]))["fit_status"]
    st = prob.posterior.state.get()
    mon = "val_loss" if sc["monitor"] == "val_loss" else sc["monitor"]
    rck = []
    latest = []
    if d:
        for s in ckpts(d):
            r = restored(prob, d, s)
            rck.append([s, fx(wvec(r), S), int(r.step)])
        latest = fx(wvec(restored(prob, d, None)), S)
    ev.append(dict(a="end", haskeys=dict(loss=sc["epochs"] > 0), loss=status_list(status, "loss", off=const_t),
                   psum=status_list(status, "psum"), tsum=status_list(status, "tsum"),
                   val_loss=status_list(status, "val_loss", off=const_v),
                   val_psum=status_list(status, "val_psum"),
                   monitor=status_list(status, mon, 2 ** 20), step=int(st.step), w=fx(wvec(st), S),
                   ck=rck, latest=latest))
    if d:
        shutil.rmtree(d, ignore_errors=True)
    return cfg, ev


def restored(prob, d, s):
    """Load a checkpoint the way a user does, into a fresh model."""
    p2 = ProbRegressor(model=Lin(), likelihood_log_variance_model=Zero(), prior=prob.prior,
                       posterior_approximator=MAPPosteriorApproximator(), output_calibrator=None)
    p2.load_state(d if s is None else os.path.join(d, "checkpoint_%d" % s))
    return p2.posterior.state.get()


main(scenarios, run)
