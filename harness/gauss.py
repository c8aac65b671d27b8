"""Gaussian posteriors (SWAG, Laplace, ADVI): what they hold and what they draw."""
import life
from life import *
from fortuna.training.callback import Callback

B = 10 ** 7
NDRAW = 1000
LSB = -1.


class Watch(Callback):
    """Records the points visited, and keeps the checkpoints seen meanwhile."""
    def __init__(self, names, d, keep):
        self.names, self.d, self.keep, self.pts, self.cks = names, d, keep, [], {}

    def training_epoch_start(self, state):
        return state

    def training_step_end(self, state):
        f = flat(state.params)
        self.pts.append((int(jnp.ravel(state.step)[0]), np.concatenate([np.ravel(f[n]) for n in self.names(f)])))
        self.look()
        return state

    def training_epoch_end(self, state):
        self.look()
        return state

    def look(self):
        for f in os.listdir(self.d) if self.d and os.path.isdir(self.d) else []:
            q = os.path.join(self.keep, f)
            if f.startswith("checkpoint_") and not os.path.exists(q):
                shutil.copy(os.path.join(self.d, f), q)


def scenarios(a):
    rnd = random.Random(a.seed * 5)
    out = []
    for j, s in enumerate(json.load(open(a.scen))):
        for m in (("swag",) if a.part == "swag" else ("laplace", "advi")):
            reg = rnd.random() < .35
            bn = rnd.random() < .35
            frz = rnd.choice(["none", "none", "za", "al", "bias"] + (["llv"] if reg else []))
            out.append(dict(name="%s-%d" % (m, j), method=m, ops=s["ops"], rank=s["rank"], reg=reg, bn=bn, frz=frz, seed=j + 1,
                            n=rnd.choice([s["rank"] + 1, s["rank"] + 3, 7]), bs=rnd.choice([4, 8, 3] if m != "laplace" else [4, 8, 3]),
                            gas=rnd.choice([None, None, 2]), every=rnd.choice([0, 1, 3]), dump=rnd.random() < .5, lr=.02 if reg else rnd.choice([.1, .5]),
                            nojit=rnd.random() < .2, cal=rnd.random() < .5, tune=m == "laplace" and rnd.random() < .4, dev=rnd.choice([-1, 0])))
    return out


def names_of(frz):
    return lambda f: [n for n in sorted(f, key=lambda n: n.split("/")) if frz == "none" or not ISF[frz](n)]


def run(sc, a):
    cache(a)
    m, frz, reg = sc["method"], sc["frz"], sc["reg"]
    d0 = os.path.join(a.work, sc["name"])
    shutil.rmtree(d0, ignore_errors=True)
    os.makedirs(d0)
    y = YR if reg else YC
    train = DataLoader.from_array_data((X, y), batch_size=sc["bs"])
    ev, cfg = [], dict(sc=sc, rank=sc["rank"])
    names = names_of(frz)
    nb = -(-8 // sc["bs"])
    gas = sc["gas"] if nb >= 2 else None

    def build(seed):
        ap = dict(swag=lambda: SWAGPosteriorApproximator(rank=sc["rank"]), laplace=lambda: LaplacePosteriorApproximator(tune_prior_log_variance=sc["tune"]),
                  advi=lambda: ADVIPosteriorApproximator(log_std_base=LSB))[m]()
        kw = dict(posterior_approximator=ap, output_calibrator=Calib() if sc["cal"] else None, seed=seed)
        if reg:
            return ProbRegressor(model=Net(1, sc["bn"]), likelihood_log_variance_model=Net(1, False), **kw)
        return ProbClassifier(model=Net(3, sc["bn"]), **kw)

    def conf(n, lr, d=None, cur=False, cb=None, fz=True, every=None, dump=False):
        opt = dict(method=optax.sgd(lr) if lr else optax.sgd(0.), n_epochs=n)
        if fz and frz != "none":
            opt["freeze_fun"] = FRZ[frz]
        return FitConfig(optimizer=FitOptimizer(**opt), monitor=FitMonitor(verbose=False, disable_training_metrics_computation=True),
                         hyperparameters=FitHyperparameters(gradient_accumulation_steps=gas if cb else None),
                         checkpointer=FitCheckpointer(save_checkpoint_dir=d, dump_state=dump, save_every_n_steps=every, keep_top_n_checkpoints=99,
                                                      start_from_current_state=cur),
                         processor=FitProcessor(devices=sc["dev"], disable_jit=sc["nojit"]), callbacks=[cb] if cb else None)

    def cap(v):
        return [q if isinstance(q, int) else 2 * 10 ** 9 for q in fx(np.ravel(np.asarray(v, "float64")), B)]

    def held(st):
        """(mean, sd, dev columns, leaf names in order, leaf arrays of the mean)"""
        if m == "swag":
            ns = names(flat(st.params))
            return cap(st.mean), cap(st.std), [cap(c) for c in np.asarray(st.dev).T], ns
        pt, rest = point(st.params)
        fl = flat(st.params)
        trim = lambda k: "/".join(p for p in k.split("/") if p not in ("mean", "log_std", "hess_lik_diag", "params"))
        other = {trim(k): v for k, v in rest.items()}
        ns = sorted(other, key=lambda n: n.split("/"))
        mean = np.concatenate([np.ravel(pt[n]) for n in ns])
        if m == "advi":
            sd = np.exp(np.concatenate([np.ravel(other[n]) for n in ns]) + LSB)
        else:
            sd = 1 / np.sqrt(np.exp(-float(st.prior_log_var)) + np.concatenate([np.ravel(other[n]) for n in ns]))
        return cap(mean), cap(sd), [], ns

    def draws(prob, ev):
        st = prob.posterior.state.get()
        mean, sd, dev, ns = held(st)
        trim = (lambda k: k) if m == "swag" else (lambda k: "/".join(p for p in k.split("/") if p != "params"))
        def samp(k):
            q = prob.posterior.sample(rng=k, inputs=X[:4])
            return q.params, q.mutable, q.calib_params
        keys = jax.vmap(jax.random.PRNGKey)(np.arange(NDRAW) + 7 * sc["seed"])
        s = jax.jit(jax.vmap(samp))(keys)
        f = {trim(k): np.asarray(v, "float64") for k, v in flat(s[0]).items()}
        xs = np.concatenate([f[n].reshape(NDRAW, -1) for n in ns], 1)
        D = xs.shape[1]
        mu, sg = np.array(mean) / B, np.array(sd) / B
        dv = np.array(dev).reshape(-1, D).T / B
        dirs = list(np.eye(D, dtype=int))
        rnd = np.random.RandomState(sc["seed"])
        dirs += [rnd.randint(-1, 2, D) for _ in range(3)]
        if len(dev):
            w = dv / np.maximum(sg, 1e-6)[:, None]
            for u in np.linalg.svd(w)[0].T[:2]:
                u = u / np.maximum(sg, 1e-6)
                u[sg < 1e-4] = 0
                dirs.append(np.round(3 * u / np.abs(u).max()).astype(int) if np.abs(u).max() > 0 else np.eye(D, dtype=int)[0])
        e = dict(a="draws", dirs=[])
        for v in dirs:
            if not v.any():
                continue
            p = xs @ v
            sdev = p.std()
            e["dirs"].append(dict(v=v, sd=cap([sdev])[0], mean=cap([p.mean()])[0], in1=int(round(1000 * np.mean(np.abs(p - p.mean()) < sdev)))))
        fl = {trim(k): np.asarray(v) for k, v in flat(st.params).items()}
        fr = [n for n in f if n not in ns]
        e["frozen"] = sorted(fr) == sorted(n for n in {**{q: 0 for q in f}} if frz != "none" and ISF[frz](n)) and \
            all((f[n] == np.asarray(fl[n], "float64")[None]).all() for n in fr)
        e["calib"] = all((np.asarray(u) == np.asarray(v)[None]).all() for (_, u), (_, v) in
                         zip(sorted(flat(s[2]).items()), sorted(flat(st.calib_params).items()))) and len(flat(s[2])) == len(flat(st.calib_params))
        one = lambda k: np.concatenate([np.ravel(v) for _, v in sorted(flat(samp(jax.random.PRNGKey(k))[0]).items())])
        o = one(3)
        e["same"], e["other"] = bool((o == one(3)).all()), bool((o != one(4)).any())
        ev.append(e)
        if sc["bn"]:
            q = samp(jax.random.PRNGKey(11))
            fp = {trim(k): np.asarray(v, "float64") for k, v in flat(q[0]).items()}
            h = X[:4].astype("float64") @ [v for k, v in fp.items() if "zfirst/kernel" in k and not k.startswith("lik_log_var")][0]
            old, new = flat(st.mutable), flat(q[1])
            pick = lambda t, n: [np.ravel(v) for k, v in t.items() if k.endswith(n)][0]
            c5 = lambda v: cap(np.clip(np.asarray(v, "float64"), -9000, 9000) / 100)
            if m == "swag":
                ev.append(dict(a="mut", old=c5(np.concatenate([pick(old, "mean"), pick(old, "var")])),
                               new=c5(np.concatenate([pick(new, "mean"), pick(new, "var")])), batch=c5(np.concatenate([h.mean(0), h.var(0)]))))
            else:
                w = np.concatenate([pick(old, "mean"), pick(old, "var")])
                ev.append(dict(a="mut", old=c5(w), new=c5(np.concatenate([pick(new, "mean"), pick(new, "var")])), batch=c5(w)))

    def curvature(prob, st, ns):
        """Jacobians and likelihood terms at the mean, computed from the model alone."""
        pt, _ = point(st.params)
        trim = lambda k: "/".join(p for p in k.split("/") if p != "params")
        full = {}
        for k, v in pt.items():
            full[k] = np.asarray(v)
        mod = {n: n.split("/")[0] for n in full}
        net = prob.model if hasattr(prob, "model") else prob.model_manager.model
        calib = flat(st.calib_params)
        t = float(np.ravel(list(calib.values())[0])[0]) if calib else 0.

        def tree(prefix, fl):
            r = {}
            for k, v in fl.items():
                ps = k.split("/")
                if ps[0] == prefix:
                    r.setdefault(ps[1], {})[ps[2]] = v
            return r

        def f(fl, x):
            v = {"params": tree("model", fl)}
            if sc["bn"]:
                v["batch_stats"] = plain(st.mutable["model"]["batch_stats"])
            o = Net(1 if reg else 3, sc["bn"]).apply(v, x)
            if reg:
                o = jnp.concatenate([o, Net(1, False).apply({"params": tree("lik_log_var", fl)}, x)], -1)
                return jnp.concatenate([o[..., :1], o[..., 1:] + t], -1)
            return o * jnp.exp(-t)
        J = jax.jacobian(f)(full, X)
        J = np.concatenate([np.asarray(J[n]).reshape(len(X), 2 if reg else 3, -1) for n in ns], -1)
        o = np.asarray(f(full, X), "float64")
        if reg:
            pts = np.stack([np.exp(-o[:, 1]), y[:, 0] - o[:, 0]], 1)
        else:
            e = np.exp(o - o.max(1, keepdims=True))
            pts = e / e.sum(1, keepdims=True)
        return fx(np.transpose(J, (2, 0, 1)), 1000), fx(pts, 1000)

    def validate(prob, cands, val):
        """Validation log-probability under each prior, by many draws."""
        ks = jax.random.split(jax.random.PRNGKey(99), 300)
        out, tol = [], 0
        vx, vy = val
        lik = prob.joint.likelihood if hasattr(prob, "joint") else prob.posterior.joint.likelihood

        def lp(k, v):
            s = prob.posterior.sample(rng=k, prior_log_var=v)
            return lik._batched_log_prob(s.params, (vx, vy), mutable=s.mutable, calib_params=s.calib_params, calib_mutable=s.calib_mutable)
        f = jax.jit(jax.vmap(lp, in_axes=(0, None)))
        for v in cands:
            z = np.asarray(f(ks, jnp.array(v)), "float64")
            w = np.exp(z - z.max(0))
            out.append(float(np.sum(np.log(w.mean(0)) + z.max(0))))
            # spread of the same estimate with 60 draws
            b = [np.sum(np.log(np.exp(z[i:i + 60] - z.max(0)).mean(0) + 1e-30) + z.max(0)) for i in range(0, 300, 60)]
            tol = max(tol, 5 * float(np.std(b)))
        return out, tol

    try:
        prob = build(sc["seed"])
        for i, op in enumerate(sc["ops"]):
            if op == "reload":
                p = os.path.join(d0, "s%d" % i)
                prob.save_state(p)
                prob = build(100 + i)
                prob.load_state(p)
                mean, sd, dev, ns = held(prob.posterior.state.get())
                ev.append(dict(a="held", mean=mean, sd=sd, dev=dev))
                draws(prob, ev)
                continue
            d = os.path.join(d0, "r%d" % i) if sc["every"] or sc["dump"] else None
            kp = os.path.join(d0, "k%d" % i)
            os.makedirs(kp)
            w = Watch(names, d, kp)
            kw = dict(map_fit_config=conf(2, .1, fz=False)) if op == "fit" and m != "advi" else {}
            val = (X[:6] * .8, y[:6])
            vl = DataLoader.from_array_data(val, batch_size=3)
            prob.train(train, val_data_loader=vl if sc["tune"] else None,
                       fit_config=conf(sc["n"], sc["lr"] if m == "swag" else .01, d, cur=op == "cur", cb=w if m == "swag" else None,
                                       every=sc["every"] or None, dump=sc["dump"] and bool(d)), **kw)
            w.look()
            st = prob.posterior.state.get()
            mean, sd, dev, ns = held(st)
            if m == "swag":
                cks = {}
                for f in os.listdir(kp):
                    c = prob.posterior.restore_checkpoint(os.path.join(kp, f))
                    cks[int(c.step)] = c
                ev.append(dict(a="start"))
                for s, x in w.pts:
                    ev.append(dict(a="visit", x=cap(x), step=s))
                    if s in cks:
                        c = cks[s]
                        ev.append(dict(a="ck", mean=cap(c.mean), sd=cap(c.std), dev=[cap(q) for q in np.asarray(c.dev).T]))
                ev.append(dict(a="swag", mean=mean, sd=sd, dev=dev))
            else:
                e = dict(a="diag", mean=mean, sd=sd, curv=[], pts=[], h=[], reg=reg)
                if m == "laplace":
                    e["curv"], e["pts"] = curvature(prob, st, ns)
                    fl = flat(st.params)
                    trim = lambda k: "/".join(p for p in k.split("/") if p not in ("hess_lik_diag", "params"))
                    hs = {trim(k): v for k, v in fl.items() if "hess_lik_diag" in k.split("/")}
                    e["h"] = fx(np.concatenate([np.ravel(hs[n]) for n in ns]), 1000)
                ev.append(e)
            draws(prob, ev)
            if sc["tune"]:
                lo, hi, g = -12., 4., 5
                r, x = attempt(lambda: prob.posterior.prior_log_variance_tuning(vl, n_posterior_samples=60, min_prior_log_var=lo, max_prior_log_var=hi,
                                                                                 grid_size=g, distribute=sc["dev"] == -1))
                c = [float(v) for v in np.linspace(lo, hi, g)] + [float(prob.joint.prior.log_var)]
                v, tol = validate(prob, c, val) if x is None else ([], 0)
                pick = [k + 1 for k in range(len(c)) if x is None and abs(float(jnp.ravel(r)[0]) - c[k]) < 1e-4]
                ev.append(dict(a="tune", exc=x or "", why=WHY[:] if x else [], pick=pick[0] if pick else 0, val=fx(np.maximum(v, -1e5), 1000), tol=fx(tol + .5, 1000), used=True))
    except Exception as x:
        raise Partial(cfg, ev, x)
    finally:
        shutil.rmtree(d0, ignore_errors=True)
    return cfg, ev


if __name__ == "__main__":
    main(scenarios, run)
