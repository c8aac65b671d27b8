"""Deep ensembles and the MAP models that train each of their members alone."""
import life
from life import *
from fortuna.training.callback import Callback

VX = RS.randn(6, 2).astype("float32")
VY = (np.arange(6) % 3).astype("int32")


class Count(Callback):
    """A user's callback: sees every step and epoch, and changes the parameters a little."""
    def __init__(self, poke):
        self.log, self.poke = [], poke

    def training_epoch_start(self, state):
        self.log.append(-1)
        return state

    def training_step_end(self, state):
        self.log.append(int(jnp.ravel(state.step)[0]))
        if self.poke:
            state = state.replace(params=jax.tree_util.tree_map(lambda v: v * .99, state.params))
        return state

    def training_epoch_end(self, state):
        self.log.append(-2)
        return state


def scenarios(a):
    rnd = random.Random(a.seed * 11)
    out = []
    for j, s in enumerate(json.load(open(a.scen))):
        cfgs = {}
        for c in (1, 2):
            frz = rnd.choice(["none", "none", "za", "al", "bias"])
            cfgs[c] = dict(lr=rnd.choice([.1, .3]), n=rnd.choice([1, 2, 4]), es=rnd.choice([0, 0, 1, 2]), gas=rnd.choice([None, None, 2]),
                           clip=rnd.choice([None, None, .2]), frz=frz, cb=rnd.choice([0, 1, 1, 2]), every=rnd.choice([0, 1, 3]), keep=rnd.choice([1, 2, 9]),
                           dir=rnd.random() < .6, dump=rnd.random() < .5, ev=rnd.choice([1, 2]), met=rnd.random() < .5, mom=rnd.random() < .5,
                           nojit=rnd.random() < .15, val=rnd.random() < .5)
        out.append(dict(name="ens-%d" % j, ops=s["ops"], cfgs=cfgs, n=s["n"] if "n" in s else 2, bn=rnd.random() < .4, reg=rnd.random() < .3, seed=j + 1))
        if out[-1]["reg"]:
            for c in cfgs.values():
                c["lr"] /= 10
    return out


class Ens:
    def __init__(self, sc, a):
        self.sc, self.tok = sc, Interner()
        self.dir = os.path.join(a.work, sc["name"])
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        r = sc["reg"]
        self.train = DataLoader.from_array_data((X, YR if r else YC), batch_size=4)
        self.val = DataLoader.from_array_data((VX, RS.randn(6, 1).astype("float32") if r else VY), batch_size=3)
        self.k = 0
        self.de = self.build("de", sc["seed"])

    def build(self, m, seed):
        ap = DeepEnsemblePosteriorApproximator(ensemble_size=self.sc["n"]) if m == "de" else MAPPosteriorApproximator()
        kw = dict(posterior_approximator=ap, output_calibrator=Calib(), seed=seed)
        if self.sc["reg"]:
            return ProbRegressor(model=Net(1, self.sc["bn"]), likelihood_log_variance_model=Net(1, False), **kw)
        return ProbClassifier(model=Net(3, self.sc["bn"]), **kw)

    def P(self, p):
        return os.path.join(self.dir, p)

    def cfg(self, c, restore=None, cur=False):
        g = self.sc["cfgs"].get(c) or self.sc["cfgs"].get(str(c)) or dict(
            lr=0., n=1, es=0, gas=None, clip=None, frz="none", cb=0, every=0, keep=1, dir=False, dump=False, ev=1, met=False, mom=False, nojit=False, val=False)
        self.k += 1
        self.s0 = 0
        d = self.P("run%d" % self.k) if g["dir"] else None
        opt = dict(method=optax.sgd(g["lr"], momentum=.9 if g["mom"] else None), n_epochs=g["n"])
        if g["frz"] != "none":
            opt["freeze_fun"] = FRZ[g["frz"]]
        mon = dict(verbose=False, eval_every_n_epochs=g["ev"])
        if g["met"] and not self.sc["reg"]:
            from fortuna.metric.classification import accuracy
            mon["metrics"] = (accuracy,)
        else:
            mon["disable_training_metrics_computation"] = True
        val = g["val"] or g["es"]
        if g["es"]:
            mon.update(early_stopping_patience=g["es"], early_stopping_min_delta=.05)
        cb = Count(g["cb"] == 2) if g["cb"] else None
        fc = FitConfig(optimizer=FitOptimizer(**opt), monitor=FitMonitor(**mon),
                       hyperparameters=FitHyperparameters(max_grad_norm=g["clip"], gradient_accumulation_steps=g["gas"]),
                       checkpointer=FitCheckpointer(save_checkpoint_dir=d, dump_state=bool(d) and g["dump"], save_every_n_steps=g["every"] or None,
                                                    keep_top_n_checkpoints=g["keep"], restore_checkpoint_path=restore, start_from_current_state=cur),
                       processor=FitProcessor(disable_jit=g["nojit"]), callbacks=[cb] if cb else None)
        return fc, cb, d, self.val if val else None

    def member(self, st):
        t = self.tok
        ps = flat(st.params)
        vec = lambda q: np.concatenate([np.ravel(v) for _, v in sorted(flat(q).items())] or [np.zeros(0)])
        full = t((t.tree(st.params), t.tree(st.mutable), t.tree(st.calib_params), t.tree(st.calib_mutable)))
        big = lambda q: [v if isinstance(v, int) else 10 ** 9 for v in fx(q, S)]
        return dict(v=big(vec(st.params)), m=big(vec(st.mutable)), c=t.tree(st.calib_params), full=full,
                    k=t(np.concatenate([np.ravel(v) for n, v in sorted(ps.items()) if n.endswith("kernel")])))

    def members(self, prob, m):
        s = prob.posterior.state
        if s is None:
            return []
        return [self.member(s.get(i)) for i in range(self.sc["n"])] if m == "de" else [self.member(s.get())]

    def runs(self, prob, m, status, cb, d, n_members):
        sts = status if m == "de" else [status]
        logs = [[] for _ in sts]
        if cb:       # members are trained one after the other: a member's part ends with its last epoch
            epochs = [len(s.get("loss", [])) for s in sts]
            i = 0
            for x in cb.log:
                if x == -1 and i < len(sts) - 1 and logs[i].count(-2) == epochs[i]:
                    i += 1
                logs[i].append(x)
        out = []
        for i, s in enumerate(sts):
            ck = []
            w = d and (os.path.join(d, str(i)) if m == "de" else d)
            for f in sorted(os.listdir(w)) if w and os.path.isdir(w) else []:
                if f.startswith("checkpoint_"):
                    st = prob.posterior.restore_checkpoint(os.path.join(w, f))
                    ck.append(dict(step=int(st.step), v=self.member(st)["v"]))
            ck.sort(key=lambda q: q["step"])
            keys = sorted(s)
            out.append(dict(keys=keys, st=[v if isinstance(v, int) else 10 ** 9 for v in fx(np.concatenate([np.ravel(np.asarray(s[k], "float64")) for k in keys] or [np.zeros(0)]), S)], cb=logs[i], ck=ck))
        return out


def run(sc, a):
    cache(a)
    L = Ens(sc, a)
    ev = []
    one = None

    def look():
        o = L.members(L.de, "de")
        draws = []
        if o:
            for k in range(40):
                s = L.de.posterior.sample(rng=jax.random.PRNGKey(k)) if k % 5 else L.de.posterior.sample()
                draws.append(L.member(s)["full"])
        ev.append(dict(a="look", obs=o, draws=sorted(set(draws))))

    def fit(prob, m, c, src, seed, **kw):
        fc, cb, d, val = L.cfg(c, restore=kw.get("restore"), cur=kw.get("cur", False))
        r, x = attempt(lambda: prob.train(L.train, val_data_loader=val, fit_config=fc))
        e = dict(a="fit" if m == "de" else "map", c=c, src=src, seed=seed, n=sc["n"], exc=x or "", obs=[], runs=[], i=kw.get("i", 0))
        if x:
            e["why"] = WHY[:]
        else:
            e["obs"] = L.members(prob, m)
            e["runs"] = L.runs(prob, m, r["fit_status"], cb, d, sc["n"])
        ev.append(e)
        return x is None

    try:
        ops = list(sc["ops"])
        for o in ops:
            c, src = o["c"], o["src"]
            if o["op"] == "fit" and src == "fresh":
                ok = fit(L.de, "de", c, src, sc["seed"])
            elif o["op"] == "fit" and src == "cur":
                ok = fit(L.de, "de", c, src, sc["seed"], cur=True)
            elif o["op"] == "fit":
                ok = fit(L.de, "de", c, src, sc["seed"], restore=L.P(src))
            elif o["op"] == "map":
                one = L.build("map", 50 + len(ev))
                ok = fit(one, "map", c, src, sc["seed"], restore=os.path.join(L.P(src), str(o["i"] - 1)), i=o["i"])
            elif o["op"] == "save":
                _, x = attempt(lambda: L.de.save_state(L.P(src)))
                ev.append(dict(a="save", src=src, exc=x or "", why=WHY[:] if x else []))
                ok = x is None
            elif o["op"] == "load":
                L.de = L.build("de", 77 + len(ev)) if sc["seed"] % 2 else L.de
                _, x = attempt(lambda: L.de.load_state(L.P(src)))
                ev.append(dict(a="load", src=src, exc=x or "", obs=L.members(L.de, "de") if x is None else [], why=WHY[:] if x else []))
                ok = x is None
            else:
                one.save_state(os.path.join(L.P(src), str(o["i"] - 1)))
                ev.append(dict(a="replace", src=src, i=o["i"]))
                ok = True
            if not ok:
                break
            if o["op"] != "map":
                look()
        if ok:
            # the same model from the start: trained with learning rate 0, each member then alone
            fr = [o["c"] for o in ops if o["op"] == "fit" and o["src"] == "fresh"]
            if fr and fr[0] != 0:
                L.de = L.build("de", sc["seed"])
                ev.append(dict(a="again"))
                if fit(L.de, "de", 0, "fresh", sc["seed"]):
                    L.de.save_state(L.P("A"))
                    ev.append(dict(a="save", src="A", exc=""))
                    for i in range(sc["n"]):
                        q = L.build("map", 33)
                        fit(q, "map", fr[0], "A", sc["seed"], restore=os.path.join(L.P("A"), str(i)), i=i + 1)
                    look()
    except Exception as x:
        raise Partial(dict(sc=sc, bn=int(sc["bn"])), ev, x)
    finally:
        shutil.rmtree(L.dir, ignore_errors=True)
    return dict(sc=sc, bn=int(sc["bn"])), ev


if __name__ == "__main__":
    main(scenarios, run)
