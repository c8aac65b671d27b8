"""Runs the SGMCMC integrators, schedules and fits and records the moves they make."""
from common import *
import jax, jax.numpy as jnp, shutil
import flax.linen as nn
from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_integrator import sghmc_integrator
from fortuna.prob_model.posterior.sgmcmc.cyclical_sgld.cyclical_sgld_integrator import cyclical_sgld_integrator
from fortuna.prob_model.posterior.sgmcmc.sgmcmc_preconditioner import identity_preconditioner, rmsprop_preconditioner
from fortuna.prob_model.posterior.sgmcmc import sgmcmc_step_schedule as sss
from fortuna.prob_model import (ProbClassifier, FitConfig, FitOptimizer, FitCheckpointer, FitMonitor, FitProcessor,
                                SGHMCPosteriorApproximator, CyclicalSGLDPosteriorApproximator)
from fortuna.data.loader import DataLoader

U = 10000


def schedule(s):
    a, b = s["a"] / U, s["b"] / U
    if s["kind"] == "constant":
        return sss.constant_schedule(a)
    if s["kind"] == "cosine":
        return sss.cosine_schedule(a, s["n"])
    if s["kind"] == "poly":
        return sss.polynomial_schedule(a, s["b"] / 10, 1.0)
    if s["kind"] == "burnin":
        return sss.constant_schedule_with_cosine_burnin(a, b, s["n"])
    return sss.cyclical_cosine_schedule_with_const_burnin(a, s["w"], s["n"])


def scenarios(a):
    rnd = random.Random(a.seed * 3)
    src = json.load(open(a.scen))
    rnd.shuffle(src)
    out = []
    sch = {json.dumps(s["sch"]): s["sch"] for s in src}.values()
    for j, s in enumerate(sch):
        out.append(dict(name="size-%s-%d" % (s["kind"], j), t="size", sch=s))
    out.append(dict(name="sizeq", t="sizeq"))
    seen = {}
    for s in src:
        key = json.dumps([s["k"], s["d"], s["cyc"]])
        if s["k"] == "sghmc" and seen.get(key, 0) >= (9 if a.tier == "quick" else 40):
            continue
        if s["k"] == "csgld" and seen.get(key, 0) >= (2 if a.tier == "quick" else 8):
            continue
        seen[key] = seen.get(key, 0) + 1
        if s["k"] == "csgld":
            for rep in range(1 if a.tier == "quick" else 4):
                out.append(dict(name="csgld-%d" % len(out), t="cyc", cyc=s["cyc"], sch=dict(s["sch"], a=rnd.choice([1600, 8000])),
                                pre=rnd.random() < .4, r=rnd.choice([0, 6]), eps=rnd.choice([250, 62.5]), seed=len(out)))
        else:
            pre = rnd.random() < .4
            out.append(dict(name="sghmc-%d" % len(out), t="hmc", d=s["d"], pre=pre, r=rnd.choice([0, 6, 7]), eps=250, seed=len(out)))
    for j in range(14 if a.tier == "quick" else 60):
        k = "sghmc" if j % 2 else "csgld"
        cyc = rnd.choice([s["cyc"] for s in src if s["k"] == "csgld" and 0 < s["cyc"]["rnum"] * s["cyc"]["cycle"] <= 4 * (s["cyc"]["cycle"] - 1)])
        out.append(dict(name="fit-%s-%d" % (k, j), t="fit", k=k, d=rnd.choice([0, 4, 7, 8]), cyc=cyc, pre=j % 4 >= 2, seed=j, fl=rnd.random() < .5,
                        sched=rnd.random() < .5))
    return out


def pre_of(sc):
    return rmsprop_preconditioner(sc["r"] / 8, sc["eps"] / 1000) if sc["pre"] else identity_preconditioner()


def integ(sc):
    rnd = random.Random(sc["seed"])
    hmc = sc["t"] == "hmc"
    T = 6 if hmc else 2 * sc["cyc"]["cycle"] + 1
    rs = [rnd.choice([16, 24, 32, 48, 64]) for _ in range(T)]
    if hmc:
        tab = jnp.array([(r / 64) ** 2 for r in rs])
        mk = lambda key: sghmc_integrator(momentum_decay=sc["d"] / 8, momentum_resample_steps=None, rng_key=key,
                                          step_schedule=lambda s: tab[s], preconditioner=pre_of(sc))
    else:
        mk = lambda key: cyclical_sgld_integrator(rng_key=key, init_step_size=sc["sch"]["a"] / U, cycle_length=sc["cyc"]["cycle"],
                                                  exploration_ratio=sc["cyc"]["rnum"] / sc["cyc"]["rden"], preconditioner=pre_of(sc))
    P = {"a": jnp.zeros((128, 128)), "b": jnp.zeros(16384)}
    k1, k2 = jax.random.PRNGKey(sc["seed"]), jax.random.PRNGKey(sc["seed"] + 1000)
    runs = [mk(k1), mk(k1), mk(k2), mk(k1)]           # with gradient; without; another key; the same again
    st = [r.init(P) for r in runs]
    up = [jax.jit(r.update) if sc["seed"] % 3 else r.update for r in runs]
    gs = [[rnd.randint(-4, 4) * 250 for _ in range(2)] for _ in range(T)]
    ev = [dict(a="run")]
    c = dict(k=sc["t"], d=sc.get("d", 0), pre=sc["pre"], r=sc["r"], eps=int(sc["eps"]), cyc=sc.get("cyc", {}), sch=sc.get("sch", {}))
    prev, past = None, []
    for k in range(T):
        z = jax.tree_util.tree_map(jnp.zeros_like, P)
        G = {"a": jnp.full((128, 128), gs[k][0] / 1000), "b": jnp.full(16384, gs[k][1] / 1000)}
        if sc["seed"] % 2:                            # a zero gradient now and then leaves the noise alone
            z = {"a": z["a"], "b": z["b"] + 0}
        o = []
        for i, g in enumerate((G, z, z, z)):
            u, st[i] = up[i](g, st[i], P)
            o.append([np.asarray(u["a"], "float64").ravel(), np.asarray(u["b"], "float64").ravel()])
        d = [o[0][i] - o[1][i] for i in range(2)]
        cor = lambda x, y: float(np.mean(x * y) / max(1e-12, np.sqrt(np.mean(x * x) * np.mean(y * y))))
        e = dict(a=sc["t"], c=c, g=gs[k], rs=rs[k], du=[fx(x.mean(), U) for x in d], sp=[fx(np.abs(x - x.mean()).max(), U) for x in d],
                 nv=[fx(np.mean(x * x), U) for x in o[1]], nm=[fx(x.mean(), U) for x in o[1]], nsd=[fx(np.sqrt(np.mean(x * x)), U) for x in o[1]],
                 lag=[fx(np.mean(o[1][i] * prev[i]), U) if prev else 0 for i in range(2)],
                 nvp=[fx(np.mean(prev[i] ** 2), U) if prev else 0 for i in range(2)],
                 xc=fx(cor(o[1][0], o[1][1]), U), kc=fx(cor(o[1][0], o[2][0]), U), rep=max([fx(abs(cor(o[1][0], x)), U) for x in past] or [0]),
                 same=bool(all((o[1][i] == o[3][i]).all() for i in range(2))))
        if sc["t"] == "hmc":
            e["count"] = int(st[0].count)
        prev = o[1]
        if e["nv"][0]:
            past.append(prev[0])
        ev.append(e)
    return ev


class Wide(nn.Module):
    @nn.compact
    def __call__(self, x, train=False, **kw):
        return nn.Dense(3)(jnp.tanh(nn.Dense(256)(x)))


def fit(sc, a):
    rs = np.random.RandomState(sc["seed"])
    X, Y = rs.randn(12, 4).astype("float32"), rs.permutation(np.arange(12) % 3)
    eps = 2e-3
    d = sc["d"] / 8
    pre = rmsprop_preconditioner(0.0, .25) if sc["pre"] else identity_preconditioner()
    T = 12
    if sc["k"] == "sghmc":
        if sc["sched"]:
            sch = lambda s: eps * (1 + s % 3)
        else:
            sch = eps if sc["fl"] else sss.constant_schedule(eps)
        size = lambda s: eps * (1 + s % 3) if sc["sched"] else eps
        ap = SGHMCPosteriorApproximator(n_samples=2, n_thinning=1, burnin_length=2, momentum_decay=d, step_schedule=sch, preconditioner=pre)
    else:
        ref = sss.cyclical_cosine_schedule_with_const_burnin(eps, 0, sc["cyc"]["cycle"])
        size = lambda s: float(ref(s))
        ap = CyclicalSGLDPosteriorApproximator(n_samples=1, cycle_length=sc["cyc"]["cycle"], init_step_size=eps,
                                               exploration_ratio=sc["cyc"]["rnum"] / sc["cyc"]["rden"], preconditioner=pre)
    prob = ProbClassifier(model=Wide(), posterior_approximator=ap, seed=sc["seed"])
    base = os.path.join(a.work, sc["name"])
    shutil.rmtree(base, ignore_errors=True)
    try:
        prob.train(DataLoader.from_array_data((X, Y), batch_size=4), fit_config=FitConfig(
            optimizer=FitOptimizer(n_epochs=T // 3), monitor=FitMonitor(verbose=False),
            checkpointer=FitCheckpointer(save_checkpoint_dir=base, save_every_n_steps=1, keep_top_n_checkpoints=100)))
        w = os.path.join(base, "c")
        sts = {}
        for q in os.listdir(w):
            st = prob.posterior.restore_checkpoint(os.path.join(w, q))
            sts[int(st.step)] = st.params
    finally:
        shutil.rmtree(base, ignore_errors=True)
    import jax.flatten_util as fu

    def logjoint(p, b):
        x, y = X[4 * b:4 * b + 4], Y[4 * b:4 * b + 4]
        lp = jax.nn.log_softmax(Wide().apply({"params": p["model"]["params"]}, x))
        v = fu.ravel_pytree(p)[0]
        lv = float(prob.prior.log_var)
        return 3 * jnp.sum(lp[jnp.arange(4), y]) - .5 * jnp.sum(v ** 2) * np.exp(-lv)
    g = jax.jit(jax.grad(logjoint), static_argnums=1)
    P = {k: np.asarray(fu.ravel_pytree(p)[0], "float64") for k, p in sts.items()}
    ev = []
    last = res = None
    for k in sorted(sts):
        if k + 1 not in sts:
            continue
        gk = np.asarray(fu.ravel_pytree(g(sts[k], k % 3))[0], "float64")
        M = .25 + np.abs(gk) if sc["pre"] else np.ones_like(gk)
        rt = np.sqrt(size(k))
        w = M * (P[k + 1] - P[k]) / rt                      # momentum
        if sc["k"] == "sghmc":
            if last is None:
                last = w
                res = None
                continue
            drift = w - d * last
            last = w
        else:
            drift = w
        res1 = (drift - rt * gk) / np.sqrt(M)
        gg = np.linalg.norm(rt * gk / np.sqrt(M))
        proj = float(res1 @ (rt * gk / np.sqrt(M)) / max(gg, 1e-9))
        ac = 0. if res is None else float(np.mean(res * res1) / max(1e-12, np.sqrt(np.mean(res ** 2) * np.mean(res1 ** 2))))
        res = res1
        tol = 40 * (2e-7 * (np.abs(P[k]).max() + 1) / rt) * M.max() / np.sqrt(M.min())
        ev.append(dict(a="fitstep", c=dict(k=sc["k"], d=sc["d"], cyc=sc["cyc"]), k=k, var=fx(np.mean(res1 ** 2), U), slack=fx(tol ** 2, U) + 1,
                       proj=fx(proj, 1000), gg=fx(gg, 1000), ac=fx(ac, U), size=fx(size(k), 1000000)))
    ev.append(dict(a="run"))
    return ev


def run(sc, a):
    ev = []
    try:
        if sc["t"] == "size":
            f = schedule(sc["sch"])
            for s in list(range(0, 15)) + [24, 25, 37]:
                ev.append(dict(a="size", sch=sc["sch"], step=s, v=fx(f(jnp.array(s) if s % 2 else s), U)))
        elif sc["t"] == "sizeq":
            for a_ in (8000, 30000):
                for b in (1, .5):
                    for x in (2, 3, 4):
                        f = sss.polynomial_schedule(a_ / U, b, .75)
                        ev.append(dict(a="sizeq", v=fx(f(x ** 4 - b), U), init=a_, x=x))
            for bad in (lambda: sss.constant_schedule(-1.), lambda: sss.cosine_schedule(-1., 2), lambda: sss.cosine_schedule(1., 0),
                        lambda: sss.polynomial_schedule(1., 1., .5), lambda: sss.polynomial_schedule(1., 1., 1.5),
                        lambda: sss.constant_schedule_with_cosine_burnin(-1., 1., 2), lambda: sss.constant_schedule_with_cosine_burnin(1., -1., 2),
                        lambda: sss.cyclical_cosine_schedule_with_const_burnin(-1., 0, 2), lambda: sss.cyclical_cosine_schedule_with_const_burnin(1., -1, 2)):
                ev.append(dict(a="bad", exc=attempt(bad)[1] or ""))
        elif sc["t"] == "fit":
            ev = fit(sc, a)
        else:
            ev = integ(sc)
    except Exception as x:
        raise Partial(dict(sc=sc), ev, x)
    return dict(sc=sc), ev


if __name__ == "__main__":
    main(scenarios, run)
