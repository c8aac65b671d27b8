"""Runs a model, its twin and one with another seed through the same operations."""
import life
from life import *
from fortuna.utils.random import RandomNumberGenerator
from fortuna.data.loader import InputsLoader

MASKS = []


class Drop(nn.Module):
    out: int = 3

    @nn.compact
    def __call__(self, x, train=False, **kw):
        x = jnp.tanh(nn.Dense(2)(x))
        if train:
            k = self.make_rng("dropout")
            jax.debug.callback(lambda q: MASKS.append(np.asarray(jax.random.key_data(q) if jnp.issubdtype(q.dtype, jax.dtypes.prng_key) else q)), k)
            x = x * (1 + .1 * jax.random.normal(k, x.shape))
        return nn.Dense(self.out)(x)


def scenarios(a):
    rnd = random.Random(a.seed)
    src = json.load(open(a.scen))
    rnd.shuffle(src)
    out = []
    for j in range(6 if a.tier == "quick" else 30):
        out.append(dict(name="keys-%d" % j, t="keys", seed=j))
    ms = ["map", "de", "swag", "laplace", "advi", "sghmc", "csgld"]
    per = 9 if a.tier == "quick" else 40
    for j in range(len(ms) * per // 3):
        m = ms[j % len(ms)]
        ops = []
        for s in src[3 * j:3 * j + 4]:
            ops += s["ops"]
        # every explicit-key operation once more at the end
        ops += [o for o in ops if o["key"]][:5]
        out.append(dict(name="%s-%d" % (m, j), t="ops", m=m, cls=rnd.random() < .5, seed=j, ops=ops, refit=rnd.random() < .5))
    return out


def approx(m):
    return {"map": MAPPosteriorApproximator, "de": lambda: DeepEnsemblePosteriorApproximator(ensemble_size=2),
            "swag": lambda: SWAGPosteriorApproximator(rank=2), "laplace": lambda: LaplacePosteriorApproximator(),
            "advi": lambda: ADVIPosteriorApproximator(n_loss_samples=1),
            "sghmc": lambda: SGHMCPosteriorApproximator(n_samples=2, burnin_length=2, step_schedule=constant_schedule(1e-3)),
            "csgld": lambda: CyclicalSGLDPosteriorApproximator(n_samples=2, cycle_length=4, init_step_size=1e-3)}[m]()


def build(sc, seed):
    kw = dict(posterior_approximator=approx(sc["m"]), output_calibrator=None, seed=seed)
    if sc["cls"]:
        return ProbClassifier(model=Drop(3), **kw)
    return ProbRegressor(model=Drop(1), likelihood_log_variance_model=Drop(1), **kw)


def rows(x, tok):
    return [tok(np.round(np.asarray(v, "float64"), 4)) for v in x]


def params_of(prob, sc, tok):
    st = [prob.posterior.state.get(i) for i in range(2)] if sc["m"] in ("de", "sghmc", "csgld") else [prob.posterior.state.get()]
    return [tok.tree(s.params) for s in st]


def one(prob, sc, o, tok):
    rng = None if o["key"] == 0 else jax.random.PRNGKey(1000 + o["key"])
    il = InputsLoader.from_array_inputs(X[:4], batch_size=4)
    p, op = prob.predictive, o["op"]
    kw = {} if rng is None and sc["seed"] % 2 else dict(rng=rng)
    if op == "post":
        s = prob.posterior.sample(**(dict(kw, inputs=jnp.array(X[:4]))))
        return rows([prob.likelihood.get_calibrated_outputs(s.params, il, s.mutable, s.calib_params, s.calib_mutable)], tok)
    if op == "ens":
        return rows(p.sample_calibrated_outputs(il, n_output_samples=3, **kw), tok)
    if op == "target":
        return rows(p.sample(il, n_target_samples=3, distribute=bool(sc["seed"] % 3), **kw), tok)
    if op == "mean":
        return rows([p.mean(il, n_posterior_samples=3, **kw)], tok)
    if op == "var":
        return rows([p.epistemic_variance(il, n_posterior_samples=3, **kw) * 100, ], tok)
    if op == "logp":
        dl = DataLoader.from_array_data((X[:4], (YC if sc["cls"] else YR)[:4]), batch_size=4)
        return rows([p.log_prob(dl, n_posterior_samples=3, **kw)], tok)
    if op == "prior":
        st = prob.posterior.state.get(0) if sc["m"] in ("de", "sghmc", "csgld") else prob.posterior.state.get()
        return rows([jnp.concatenate([jnp.ravel(v) for v in flat(prob.prior.sample(st.params, **kw)).values()])], tok)
    raise ValueError(op)


def is_random(op, sc):
    cont = sc["m"] in ("swag", "laplace", "advi")
    if op == "prior":
        return True
    if op == "target":
        return not sc["cls"]
    if op in ("post", "ens", "mean", "logp"):
        return cont
    return False


def train(prob, sc):
    ld = DataLoader.from_array_data((X, YC if sc["cls"] else YR), batch_size=4, shuffle=True)
    MASKS.clear()
    kw = {}
    if sc["m"] in ("swag", "laplace"):
        kw["map_fit_config"] = FitConfig(optimizer=FitOptimizer(n_epochs=2), monitor=FitMonitor(verbose=False))
    st = prob.train(ld, fit_config=FitConfig(optimizer=FitOptimizer(n_epochs=3), monitor=FitMonitor(verbose=False),
                                             processor=FitProcessor(disable_jit=sc["seed"] % 4 == 3)), **kw)
    jax.effects_barrier()
    return st, list(MASKS)


def run(sc, a):
    cache(a)
    tok = Interner()
    ev = []
    try:
        if sc["t"] == "keys":
            gs = [RandomNumberGenerator(s) for s in (sc["seed"], sc["seed"], sc["seed"] + 1)]
            for _ in range(6):
                r = []
                for g in gs:
                    k = g.get()
                    r.append([tok(k)] + [tok(c) for n in (2, 3, 4) for c in jax.random.split(k, n)])
                ev.append(dict(a="key", res=r[0], twin=r[1], other=r[2]))
            return dict(sc=sc), ev
        ps = [build(sc, s) for s in (sc["seed"], sc["seed"], sc["seed"] + 100)]
        todo = [dict(op="fit", key=0)] + sc["ops"]
        if sc["refit"]:
            h = len(todo) // 2
            todo = todo[:h] + [dict(op="fit", key=0)] + todo[h:]
        for o in todo:
            if o["op"] == "fit":
                rs, ms, ss, exc = [], [], [], ""
                for p in ps:
                    v, x = attempt(train, p, sc)
                    exc = exc or (x or "")
                    if v is not None:
                        rs.append(params_of(p, sc, tok))
                        ss.append(tok.tree(v[0]["fit_status"]) if isinstance(v[0]["fit_status"], dict) else 0)
                        ms.append(v[1])
                if exc:
                    ev.append(dict(a="fit", exc=exc, why=WHY[0], where=WHY[1]))
                    break
                mk = [tok(m) for m in ms[0]]
                multi = sc["m"] in ("advi", "laplace")    # vmapped or repeated evaluations
                ev.append(dict(a="fit", exc="", res=rs[0], twin=rs[1], other=rs[2], status=ss[0], tstatus=ss[1],
                               masks=[] if multi or not sc["cls"] else mk, steps=0 if multi or not sc["cls"] else 6))
                continue
            r, exc = [], ""
            for p in ps:
                v, x = attempt(one, p, sc, o, tok)
                exc = exc or (x or "")
                r.append(v)
            e = dict(a="op", op=o["op"], key=o["key"], exc=exc, res=r[0], twin=r[1], other=r[2], random=is_random(o["op"], sc))
            if exc:
                e["why"] = WHY[:]
            ev.append(e)
    except Exception as x:
        raise Partial(dict(sc=sc), ev, x)
    return dict(sc=sc), ev


if __name__ == "__main__":
    main(scenarios, run)
