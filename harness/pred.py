"""Asks predictive distributions for everything they offer, over many ways to batch
the same points, and records the answers together with what each draw predicts."""
import os, sys
_i = sys.argv[sys.argv.index("--shard") + 1] if "--shard" in sys.argv else "0/1"
DEV = 2 if int(_i.split("/")[0]) % 2 and "/1" != _i[-2:] else 1
os.environ["XLA_FLAGS"] = "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true" + (
    " --xla_force_host_platform_device_count=2" if DEV == 2 else "")
import life
from life import *
from fortuna.data.loader import InputsLoader
from fortuna.calib_model import CalibClassifier, CalibRegressor
from fortuna.calib_model import Config as CConfig, Optimizer as COptimizer, Monitor as CMonitor
from fortuna.output_calib_model import OutputCalibClassifier, OutputCalibRegressor
from fortuna.output_calib_model import Config as OConfig, Optimizer as OOptimizer, Monitor as OMonitor

B = 10 ** 6
N = 6
TS = np.random.RandomState(5)
TX = (1.5 * TS.randn(N, 2)).astype("float32")
TYC = np.array([0, 1, 2, 2, 1, 0], "int32")
TYR = TS.randn(N, 1).astype("float32")


def scenarios(a):
    rnd = random.Random(a.seed * 11)
    sc = json.load(open(a.scen))
    out = {1: [], 2: []}
    ms = ["de", "map", "sghmc", "calib", "outcal", "swag", "laplace", "advi", "lik"]
    for j, s in enumerate(sc):
        m = ms[j % len(ms)]
        reg = (j + j // len(ms)) % 2 == 0
        out[s["d"]].append(dict(
            name="%s%d-%d-d%d" % (m, reg, j, s["d"]), method=m, part=s["part"], d=s["d"], n=rnd.choice([1, 2, 3, 3, 5, 5]), reg=reg,
            size=rnd.choice([2, 3]), bn=rnd.random() < .4 and m != "swag", cal=rnd.random() < .6, seed=j + 1,
            dist=True if s["d"] == 2 else rnd.random() < .5, err=rnd.choice([0, 5, 20, 50, 90, 100]),
            other=rnd.choice([[6], [4, 2], [2, 2, 2]])))
    k = int(_i.split("/")[1])
    if k == 1:
        return out[1]
    r, ks = [], {1: 0, 2: 0}
    while any(ks[d] < len(out[d]) for d in ks):      # shard i has the devices of its parity
        d = 1 + len(r) % 2
        if ks[d] < len(out[d]):
            r.append(out[d][ks[d]])
            ks[d] += 1
        else:
            r.append(None)
    return [x or dict(name="none", method=None) for x in r]


def get(fl, *ends):
    for k, v in fl.items():
        if all(e in k.split("/") for e in ends):
            return np.asarray(v, "float64")


def sub(t, p):
    return {k: v for k, v in flat(t).items() if k.split("/")[0] == p}


def net(params, mut, x, bn):
    h = x @ get(params, "zfirst", "kernel")
    if bn:
        h = (h - get(mut, "mid", "mean")) / np.sqrt(get(mut, "mid", "var") + 1e-5) * get(params, "mid", "scale") + get(params, "mid", "bias")
    else:
        h = h + get(params, "zfirst", "bias")
    return np.tanh(h) @ get(params, "alast", "kernel") + get(params, "alast", "bias")


def forward(st, x, reg, bn):
    """Calibrated outputs of a model with these parameters, computed apart from the code."""
    x = np.asarray(x, "float64")
    p, m = flat(st.params), st.mutable
    c = flat(getattr(st, "calib_params", None))
    t = float(np.ravel(list(c.values())[0])[0]) if c else 0.
    o = net(sub(st.params, "model"), sub(m, "model") if m is not None else {}, x, bn)
    if not reg:
        return o * np.exp(-t)
    v = net(sub(st.params, "lik_log_var"), sub(m, "lik_log_var") if m is not None else {}, x, False)
    return np.concatenate([o, v + t], -1)


def recs(o, y, reg):
    """Per point: mean, variance, density of the target, entropy, of outputs o."""
    o = np.asarray(o, "float64")
    r = []
    for q, t in zip(o, y):
        if reg:
            k = len(q) // 2
            m, v = q[:k], np.exp(q[k:])
            lp = -.5 * np.sum((t - m) ** 2 / v + np.log(2 * np.pi * v))
            h = .5 * np.sum(np.log(2 * np.pi * np.e * v))
        else:
            z = q - q.max()
            m = np.exp(z) / np.exp(z).sum()
            v = m * (1 - m)
            lp = np.log(max(m[int(t)], 1e-300))
            h = -np.sum(m * np.log(np.maximum(m, 1e-300)))
        r.append(dict(m=cap(m), v=cap(v), p=cap([np.exp(lp)])[0], h=cap([h], 10000)[0]))
    return r


def cap(v, s=B):
    return [q if isinstance(q, int) else 2 * 10 ** 9 for q in fx(np.ravel(np.asarray(v, "float64")), s)]


def rows(v, s=B):
    v = np.asarray(v, "float64")
    return [cap(q, s) for q in v] if v.ndim > 1 else cap(v, s)


def mix_entropy(ds):
    """Entropy of an equal mixture of scalar Gaussians, by quadrature."""
    m, v = np.array([d[0] for d in ds]), np.array([d[1] for d in ds])
    g = np.linspace((m - 9 * np.sqrt(v)).min(), (m + 9 * np.sqrt(v)).max(), 8001)
    p = np.mean(np.exp(-.5 * (g[:, None] - m) ** 2 / v) / np.sqrt(2 * np.pi * v), 1)
    return -np.sum(p * np.log(np.maximum(p, 1e-300))) * (g[1] - g[0])


def run(sc, a):
    if sc["method"] is None:
        return dict(none=0, N=N, reg=False), []
    cache(a)
    m, reg, bn, n, d = sc["method"], sc["reg"], sc["bn"], sc["n"], sc["d"]
    ty = TYR if reg else TYC
    y = YR if reg else YC
    ev, cfg = [], dict(sc=sc, N=N, reg=reg)
    train = DataLoader.from_array_data((X, y), batch_size=4)
    rnd = random.Random(sc["seed"])
    assert jax.local_device_count() == d

    def cut(part, z):
        s = np.cumsum([0] + part)
        return [z[i:j] for i, j in zip(s, s[1:])]

    def il(part, x=TX):
        return InputsLoader.from_iterable(cut(part, x))

    def dl(part, x=TX, t=ty):
        return DataLoader.from_iterable(list(zip(cut(part, x), cut(part, t))))

    L = life.Life.__new__(life.Life)
    L.sc = dict(sc, mom=False, nojit=False)
    L.m, L.reg, L.size, L.seed, L.seedstep = m, reg, sc["size"] if m in ("de", "sghmc") else 1, sc["seed"], 1
    L.a, L.dir = a, None
    P, D = sc["part"], sc["dist"]
    mixp = a.part == "mix"
    parts = [(P, D)] if mixp else [(P, D), (sc["other"], D)] + ([(rnd.choice([[1, 5], [3, 1, 2], [5, 1], [1] * 6]), False)] if d == 2 or rnd.random() < .5 else [])

    def opt(n_epochs, lr):
        return dict(method=optax.sgd(lr), n_epochs=n_epochs)

    try:
        if m == "outcal":
            rs = np.random.RandomState(sc["seed"])
            outs = rs.randn(12, 2 if reg else 3).astype("float32")
            tg = rs.randn(12, 1).astype("float32") if reg else (np.arange(12) % 3).astype("int32")
            prob = (OutputCalibRegressor if reg else OutputCalibClassifier)(output_calibrator=Calib(), seed=sc["seed"])
            if reg:
                from fortuna.loss.regression.scaled_mse import scaled_mse_fn
            if not reg:
                prob.calibrate(outs, tg, config=OConfig(optimizer=OOptimizer(**opt(3, .5)), monitor=OMonitor(verbose=False)))
            else:
                prob.calibrate(outs, tg, config=OConfig(optimizer=OOptimizer(**opt(3, .5)), monitor=OMonitor(verbose=False)))
            st = prob.predictive.state.get()
            t = float(np.ravel(list(flat(st.params).values())[0])[0])
            o = rs.randn(N, 2 if reg else 3).astype("float32")
            cal = np.asarray(o, "float64") * np.exp(-t) if not reg else np.concatenate([o[:, :1], o[:, 1:] + t], 1)
            ev.append(dict(a="members", mem=[recs(cal, ty, reg), recs(o, ty, reg)], disc=True))
            for k, c in ((1, True), (2, False)):
                w = cal if c else o
                ev.append(dict(a="draws", k=k, n=1, rows=[recs(w, ty, reg)]))
                q = prob.predictive
                ask(ev, k, dict(
                    mean=lambda: q.mean(o, calibrated=c), var=lambda: q.variance(o, calibrated=c), ale=lambda: q.variance(o, calibrated=c),
                    mode=lambda: q.mode(o, calibrated=c), dens=lambda: np.exp(np.asarray(q.log_prob(o, ty, calibrated=c), "float64")),
                    std2=lambda: np.asarray(q.std(o, calibrated=c)) ** 2), reg)
                std = np.asarray(q.std(o, variances=jnp.asarray(q.variance(o, calibrated=c)), calibrated=c))
                ev.append(dict(a="stat", what="std2", k=k, rows=rows(std ** 2)))
                nt = 4000
                key = jax.random.PRNGKey(3)
                e = q.entropy(o, calibrated=c, **(dict(n_target_samples=nt, rng=key) if reg else {}))
                ent1(ev, k, e, reg, [[r] for r in zip(w[:, 0], np.exp(w[:, 1]))] if reg else None, nt)
                s = np.asarray(q.sample(nt, o, rng=key, calibrated=c), "float64")
                samples(ev, s, reg, 3, only=(recs(w, ty, reg)))
                if reg:
                    quant(ev, lambda qq, nn: q.quantile(qq, o, n_samples=nn, rng=key, calibrated=c),
                          lambda nn: q.sample(nn, o, rng=key, calibrated=c),
                          lambda err, typ, nn: q.credible_interval(o, n_samples=nn, error=err, interval_type=typ, rng=key, calibrated=c), rnd)
            return cfg, ev
        if m in ("calib", "lik"):
            if m == "calib":
                prob = CalibRegressor(Net(1, bn), Net(1, False), seed=sc["seed"]) if reg else CalibClassifier(Net(3, bn), seed=sc["seed"])
                prob.calibrate(train, config=CConfig(optimizer=COptimizer(**opt(3, .05)), monitor=CMonitor(verbose=False)))
                st = prob.predictive.state.get()
                q, kw, smp = prob.predictive, {}, "n_samples"
            else:
                L.m = "map"
                prob = L.build("map")
                prob.train(train, fit_config=L.fitcfg(.2 if reg else .1, 3), **calibkw(sc, train))
                st = prob.posterior.state.get()
                q = prob.likelihood
                kw = dict(params=st.params, mutable=st.mutable, calib_params=st.calib_params, calib_mutable=st.calib_mutable)
                smp = "n_target_samples"
            o = forward(st, TX, reg, bn)
            ev.append(dict(a="members", mem=[recs(o, ty, reg)], disc=True))
            ev.append(dict(a="draws", k=1, n=1, rows=[recs(o, ty, reg)]))
            lik = prob.likelihood
            for part, dist in parts:
                k4 = dict(params=st.params, mutable=st.mutable, calib_params=getattr(st, "calib_params", None), calib_mutable=getattr(st, "calib_mutable", None))
                ev.append(dict(a="draws", k=1, n=1, rows=[recs(lik.get_calibrated_outputs(inputs_loader=il(part), distribute=dist, **k4), ty, reg)]))
                ask(ev, 1, dict(
                    mean=lambda: q.mean(inputs_loader=il(part), distribute=dist, **kw), var=lambda: q.variance(inputs_loader=il(part), distribute=dist, **kw),
                    mode=lambda: q.mode(inputs_loader=il(part), distribute=dist, **kw),
                    dens=lambda: np.exp(np.asarray(q.log_prob(data_loader=dl(part), distribute=dist, **kw), "float64")),
                    std2=lambda: np.asarray(q.std(inputs_loader=il(part), distribute=dist, **kw)) ** 2), reg)
                v = q.variance(inputs_loader=il(part), distribute=dist, **kw)
                ev.append(dict(a="stat", what="std2", k=1, rows=rows(np.asarray(
                    q.std(inputs_loader=il(part), distribute=dist, **{"variance" if m == "lik" else "variances": v}, **kw)) ** 2)))
                nt, key = 4000, jax.random.PRNGKey(3)
                e = q.entropy(inputs_loader=il(part), distribute=dist, **kw, **({smp: nt, "rng": key} if reg else {}))
                ent1(ev, 1, e, reg, [[r] for r in zip(o[:, 0], np.exp(o[:, 1]))] if reg else None, nt)
                s = np.asarray(q.sample(inputs_loader=il(part), distribute=dist, rng=key, **{smp: nt}, **kw), "float64")
                samples(ev, s, reg, 3)
                if reg:
                    quant(ev, lambda qq, nn: q.quantile(qq, inputs_loader=il(part), distribute=dist, rng=key, **{smp: nn}, **kw),
                          lambda nn: q.sample(inputs_loader=il(part), distribute=dist, rng=key, **{smp: nn}, **kw),
                          (lambda err, typ, nn: q.credible_interval(il(part), n_samples=nn, error=err, interval_type=typ, rng=key, distribute=dist))
                          if m == "calib" else None, rnd)
            return cfg, ev

        prob = L.build(m)
        kw = dict(map_fit_config=L.fitcfg(.1, 1)) if m in ("swag", "laplace") else {}
        prob.train(train, fit_config=L.fitcfg(.3 if reg else .5 if m == "de" else .1, 6 if m == "sghmc" else 3), **kw, **calibkw(sc, train))
        disc = m in ("map", "de", "sghmc")
        q = prob.predictive
        if disc:
            sts = [prob.posterior.state.get(i) for i in range(L.size)] if m != "map" else [prob.posterior.state.get()]
            fw = lambda x: [forward(s, x, reg, bn) for s in sts]
        ev.append(dict(a="members", mem=[recs(o, ty, reg) for o in fw(TX)] if disc else [], disc=disc))
        key = jax.random.PRNGKey(100 + sc["seed"])
        if d == 2:
            uneven = rnd.choice([[5, 1], [1, 5], [3, 3], [3, 1, 2]])
            _, x = attempt(lambda: q.mean(il(uneven), n_posterior_samples=2, rng=key, distribute=True))
            ev.append(dict(a="refused", uneven=x == "ValueError"))
        for part, dist in parts:
            g = dict(n_posterior_samples=n, rng=key, distribute=dist)
            draws = np.asarray(q.sample_calibrated_outputs(il(part), n_output_samples=n, rng=key, distribute=dist), "float64")
            ev.append(dict(a="draws", k=1, n=n, rows=[recs(o, ty, reg) for o in draws]))
            if not mixp:
                fs = dict(mean=lambda: q.mean(il(part), **g), ale=lambda: q.aleatoric_variance(il(part), **g), epi=lambda: q.epistemic_variance(il(part), **g),
                          mode=lambda: q.mode(il(part), **g), dens=lambda: np.exp(np.asarray(q.log_prob(dl(part), **g), "float64")))
                for w in rnd.sample(sorted(fs), 3):
                    ask(ev, 1, {w: fs[w]}, reg)
                if rnd.random() < .3:
                    ev.append(dict(a="ensp", k=1, rows=rows(np.exp(np.asarray(q.ensemble_log_prob(dl(part), **g), "float64")))))
                elif rnd.random() < .4:
                    ev.append(dict(a="tot", k=1, n=n, ale=False, rows=rows(q.variance(il(part), **g)), std2=rows(np.asarray(q.std(il(part), **g), "float64") ** 2)))
                continue
            mean, ale, epi = q.mean(il(part), **g), q.aleatoric_variance(il(part), **g), q.epistemic_variance(il(part), **g)
            ask(ev, 1, dict(
                mean=lambda: mean, ale=lambda: ale, epi=lambda: epi,
                mode=lambda: q.mode(il(part), **g), var=lambda: q.variance(il(part), aleatoric_variances=ale, epistemic_variances=epi, distribute=dist),
                dens=lambda: np.exp(np.asarray(q.log_prob(dl(part), **g), "float64")),
                std2=lambda: np.asarray(q.std(il(part), variances=ale + epi, distribute=dist), "float64") ** 2), reg)
            ev.append(dict(a="stat", what="mode", k=1, rows=modes(q.mode(il(part), means=mean, distribute=dist), reg)))
            ev.append(dict(a="ensp", k=1, rows=rows(np.exp(np.asarray(q.ensemble_log_prob(dl(part), **g), "float64")))))
            tot = q.variance(il(part), **g)
            ev.append(dict(a="tot", k=1, n=n, ale=False, rows=rows(tot), std2=rows(np.asarray(q.std(il(part), **g), "float64") ** 2)))
            tot = q.variance(il(part), aleatoric_variances=ale, **g)
            ev.append(dict(a="tot", k=1, n=n, ale=True, rows=rows(tot), std2=rows(np.asarray(tot, "float64"))))
        part, dist = parts[sc["seed"] % len(parts)]
        g = dict(n_posterior_samples=n, rng=key, distribute=dist)
        nt = 2000 if m in ("map", "swag", "laplace", "advi") else 400
        if not mixp:
            nt = 3
        if mixp:
            if reg:
                gg = dict(g, n_target_samples=nt)
                # the draws behind these entropies have a key of their own
                e = [np.asarray(f(il(part), **gg), "float64") for f in (q.entropy, q.aleatoric_entropy, q.epistemic_entropy)]
                k1 = jax.random.split(key, 1 + n)[0]
                dr = np.asarray(q.sample_calibrated_outputs(il(part), n_output_samples=n, rng=k1, distribute=dist), "float64")
                ev.append(dict(a="draws", k=2, n=n, rows=[recs(o, ty, reg) for o in dr]))
                ev.append(dict(a="ent", k=2, one=False, tot=cap(e[0], 10000), ale=cap(e[1], 10000), epi=cap(e[2], 10000),
                               ref=cap([mix_entropy([(o[i, 0], np.exp(o[i, 1])) for o in dr]) for i in range(N)], 10000), tol=int(10000 * 7 / np.sqrt(n * nt)) + 50))
            else:
                e = [np.asarray(f(il(part), **g), "float64") for f in (q.entropy, q.aleatoric_entropy, q.epistemic_entropy)]
                ev.append(dict(a="ent", k=1, one=False, tot=cap(e[0], 10000), ale=cap(e[1], 10000), epi=cap(e[2], 10000), ref=[], tol=0))
        s = np.asarray(q.sample(il(part), n_target_samples=nt, rng=key, distribute=dist), "float64")
        ref = (None, None)
        if not disc and mixp:
            h = dict(n_posterior_samples=nt, rng=jax.random.PRNGKey(77), distribute=False)
            ref = (rows(q.mean(il([6]), **h)), rows(q.aleatoric_variance(il([6]), **h) + q.epistemic_variance(il([6]), **h)))
        r, x = attempt(lambda: q.sample(il(part), n_target_samples=3, return_aux=["outputs"], rng=key, distribute=dist))
        s3 = np.asarray(q.sample(il(part), n_target_samples=3, rng=key, distribute=dist))
        aux = dict(aux=True, few=not mixp, same=False, outs=[], outsn=[1], why=[x or ""] + (WHY if x else []))
        if x is None:
            o = np.asarray(r[1].get("outputs", np.zeros((3, 0))), "float64")
            aux = dict(aux=True, few=not mixp, same=bool(np.shape(r[0]) == s3.shape and (np.asarray(r[0]) == s3).all()), outs=[recs(z, ty, reg) for z in o] if o.ndim == 3 else [],
                       outsn=[len(z) for z in o] if len(o) == 3 else [-1], why=[str(o.shape)])
        samples(ev, s, reg, 3, ref=ref, aux=aux)
        if not mixp:
            return cfg, ev
        if reg:
            quant(ev, lambda qq, nn: q.quantile(qq, il(part), n_target_samples=nn, rng=key, distribute=dist),
                  lambda nn: q.sample(il(part), n_target_samples=nn, rng=key, distribute=dist),
                  lambda err, typ, nn: q.credible_interval(il(part), n_target_samples=nn, error=err, interval_type=typ, rng=key, distribute=dist), rnd)
        else:
            for err in (sc["err"], rnd.choice([0, 1, 30, 60])):
                ev.append(dict(a="cset", k=1, err=err * 10000, sets=[list(z) for z in q.credible_set(il(part), error=err / 100, **g)]))
            tp = [4, 4] if d == 2 else [3, 5]
            tl = dl(tp, X, YC)
            lp = np.exp(np.asarray(q.ensemble_log_prob(dl(tp, X, YC), **g), "float64"))
            # densities of every label under each draw, from the draws themselves
            z = draws_probs = np.asarray(q.sample_calibrated_outputs(il(part), n_output_samples=n, rng=key, distribute=dist), "float64")
            p = np.exp(z - z.max(-1, keepdims=True))
            p /= p.sum(-1, keepdims=True)
            zt = np.asarray(q.sample_calibrated_outputs(il(tp, X), n_output_samples=n, rng=key, distribute=dist), "float64")
            pt = np.exp(zt - zt.max(-1, keepdims=True))
            pt /= pt.sum(-1, keepdims=True)
            trd = [[pt[s_, j, YC[j]] for j in range(8)] for s_ in range(n)]
            r = q.conformal_set(tl, il(part), error=sc["err"] / 100, **g)
            ev.append(dict(a="conf", k=1, err=sc["err"], ntr=8, sets=[list(z) for z in r], tr=[cap(t) for t in trd],
                           w=[[cap(p[:, i, c]) for c in range(3)] for i in range(N)]))
    except Exception as x:
        raise Partial(cfg, ev, x)
    return cfg, ev


def modes(v, reg):
    return rows(v) if reg else [int(q) for q in np.asarray(v)]


def ask(ev, k, fs, reg):
    for w, f in fs.items():
        v = f()
        ev.append(dict(a="stat", what=w, k=k, rows=modes(v, reg) if w == "mode" else rows(v)))


def ent1(ev, k, e, reg, ds, nt):
    e = cap(e, 10000)
    ev.append(dict(a="ent", k=k, one=True, tot=e, ale=e, epi=[0] * len(e), ref=cap([mix_entropy(q) for q in ds], 10000) if reg else [],
                   tol=int(10000 * 7 / np.sqrt(nt)) if reg else 0))


def samples(ev, s, reg, C, ref=(None, None), aux=None, only=None):
    e = dict(a="sample", n=len(s), shape=list(s.shape), refm=ref[0] or [], refv=ref[1] or [], **(aux or dict(few=False, aux=False, same=True, outs=[], outsn=[])))
    if only is not None:
        e["refm"], e["refv"] = [r["m"] for r in only], [r["v"] for r in only]
    e["only"] = only is not None
    if s.ndim < 2 or s.shape[1] != N:
        e["rows"] = []
    elif reg:
        e["rows"] = [cap([s[:, i].mean(), s[:, i].var()]) for i in range(N)]
    else:
        e["rows"] = [[int((s[:, i] == c).sum()) for c in range(C)] for i in range(N)]
    ev.append(e)


def quant(ev, quantile, sample, interval, rnd):
    nn = rnd.choice([3, 5, 6])
    s = np.asarray(sample(nn), "float64")
    f = lambda v: cap(v, 10 ** 5)
    smp = [f(s[:, i]) for i in range(N)]
    q = [rnd.choice([0, 50, 250, 333, 500, 750, 975, 1000]) for _ in range(2)]
    r = np.asarray(quantile(jnp.array([w / 1000 for w in q]), nn))
    ev.append(dict(a="quant", q=q, samples=smp, rows=[f(v) for v in r]))
    ev.append(dict(a="quant", q=q[:1], samples=smp, rows=[f(quantile(q[0] / 1000, nn))]))
    if interval:
        err = rnd.choice([0, 50, 100, 200, 500, 1000])
        r = np.asarray(interval(err / 1000, "two-tailed", nn))
        ev.append(dict(a="quant", q=[err // 2, 1000 - err // 2], samples=smp, rows=[f(r[:, 0]), f(r[:, 1])]))
        ev.append(dict(a="quant", q=[err], samples=smp, rows=[f(interval(err / 1000, "left-tailed", nn))]))
        ev.append(dict(a="quant", q=[1000 - err], samples=smp, rows=[f(interval(err / 1000, "right-tailed", nn))]))


def calibkw(sc, train):
    if not sc["cal"]:
        return {}
    return dict(calib_data_loader=train, calib_config=CalibConfig(optimizer=CalibOptimizer(method=optax.sgd(.5), n_epochs=2), monitor=CalibMonitor(verbose=False)))


if __name__ == "__main__":
    main(scenarios, run)
