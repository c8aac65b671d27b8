"""Records MCMC fits step by step, and what the posterior keeps and draws."""
import life
from life import *
from fortuna.data.loader import DataLoader


def scenarios(a):
    rnd = random.Random(a.seed * 7 + 1)
    src = json.load(open(a.scen))
    out = []
    for j, s in enumerate(src):
        t = s["t"]
        fits = [(s["c"], t, False)]
        r = rnd.random()
        if r < .25:        # a second fit of the same model, with another schedule
            o = rnd.choice([q for q in src if q["c"]["kind"] == s["c"]["kind"]])
            fits.append((o["c"], o["t"], False))
        elif r < .45:      # stopped early
            fits.append((s["c"], t, True))
        out.append(dict(name="%s-%d" % (s["c"]["kind"], j), fits=fits, frz=rnd.choice(["none", "none", "za", "bias"]), dump=rnd.random() < .3,
                        nojit=rnd.random() < .1, bn=rnd.random() < .3, seed=j))
    return out


def approx(c):
    if c["kind"] == "sghmc":
        return SGHMCPosteriorApproximator(n_samples=c["n"], n_thinning=c["thin"], burnin_length=c["burnin"], step_schedule=constant_schedule(1e-3))
    return CyclicalSGLDPosteriorApproximator(n_samples=c["n"], n_thinning=c["thin"], cycle_length=c["cycle"],
                                             exploration_ratio=c["rnum"] / c["rden"], init_step_size=1e-3)


def tokens(prob, n, tok):
    if prob.posterior.state is None:
        return []
    return [tok.tree(point(prob.posterior.state.get(i).params)[0]) for i in range(n)]


def run(sc, a):
    cache(a)
    tok = Interner()
    rnd = random.Random(sc["seed"])
    base = os.path.join(a.work, sc["name"])
    shutil.rmtree(base, ignore_errors=True)
    ev = []
    cfg = dict(sc=sc)
    prob = None
    held = 0
    try:
        for f, (c, t, stop) in enumerate(sc["fits"]):
            nb = rnd.choice([b for b in (1, 2, 4) if t % b == 0])
            loader = DataLoader.from_array_data((X, YC), batch_size=8 // nb)
            if prob is None:
                prob = ProbClassifier(model=Net(3, sc["bn"]), posterior_approximator=approx(c), output_calibrator=Calib(), seed=sc["seed"])
            prob.posterior.posterior_approximator = approx(c)
            d = os.path.join(base, "d%d" % f)
            opt = dict(n_epochs=t // nb)
            if sc["frz"] != "none":
                opt["freeze_fun"] = FRZ[sc["frz"]]
            mon = dict(verbose=False, disable_training_metrics_computation=True)
            if stop:
                mon.update(early_stopping_patience=1, early_stopping_min_delta=1e6)
            fc = FitConfig(optimizer=FitOptimizer(**opt), monitor=FitMonitor(**mon),
                           checkpointer=FitCheckpointer(save_checkpoint_dir=d, save_every_n_steps=1, keep_top_n_checkpoints=1000, dump_state=sc["dump"]),
                           processor=FitProcessor(disable_jit=sc["nojit"]))
            _, x = attempt(lambda: prob.train(loader, val_data_loader=loader if stop else None, fit_config=fc))
            e = dict(a="fit", c=c, t=t, stop=stop, ok=x is None, exc=x or "", chain=[], steps=[], kept=[], left=[], dirs=[], dump=sc["dump"], c0=0, fz0=0)
            sts = {}
            w = os.path.join(d, "c")
            for q in sorted(os.listdir(w)) if os.path.isdir(w) else []:
                st = prob.posterior.restore_checkpoint(os.path.join(w, q))
                sts[int(st.step)] = st
            isf = ISF.get(sc["frz"], lambda p: False)
            fz = lambda st: tok.tree({k: v for k, v in point(st.params)[0].items() if isf(k)})
            e["steps"] = sorted(sts)
            e["chain"] = [tok.tree(point(sts[k].params)[0]) for k in sorted(sts)]
            if x is None:
                held = c["n"]
                e["c0"], e["fz0"] = tok.tree(sts[min(sts)].calib_params), fz(sts[min(sts)])
                for i in range(held):
                    st = prob.posterior.state.get(i)
                    e["kept"].append(dict(pt=tok.tree(point(st.params)[0]), c=tok.tree(st.calib_params), fz=fz(st)))
            else:
                e["why"] = WHY[0]
                prob.posterior.posterior_approximator = approx(sc["fits"][0][0])
                e["left"] = tokens(prob, held, tok)
            e["dirs"] = sorted(int(q) for q in (os.listdir(d) if os.path.isdir(d) else []) if q.isdigit())
            ev.append(e)
        if prob.posterior.state is not None:
            for k in range(60):
                s = prob.posterior.sample(rng=jax.random.PRNGKey(k))
                ev.append(dict(a="sample", pt=tok.tree(point(s.params)[0])))
            ev.append(dict(a="drawn"))
    except Exception as x:
        raise Partial(cfg, ev, x)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return cfg, ev


if __name__ == "__main__":
    main(scenarios, run)
