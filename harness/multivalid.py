"""Runs the multivalid calibration methods on small problems and records what they return."""
from common import *
import copy
import jax, jax.numpy as jnp
from fortuna.conformal.multivalid.iterative.classification.binary_multicalibrator import BinaryClassificationMulticalibrator
from fortuna.conformal.multivalid.iterative.classification.top_label_multicalibrator import TopLabelMulticalibrator
from fortuna.conformal.multivalid.iterative.regression.batch_mvp import BatchMVPConformalClassifier
from fortuna.conformal.multivalid.one_shot.classification.binary_multicalibrator import OneShotBinaryClassificationMulticalibrator
from fortuna.conformal.multivalid.one_shot.classification.top_label_multicalibrator import OneShotTopLabelMulticalibrator

S = 8192
LS = {"binary": S * S, "top": S * S, "mvp": S * 16}


def two(x):
    x = np.asarray(x)
    return fx(x[:, None] if x.ndim == 1 else x, S)


def vals_for(rnd, method, n, C, lo=0):
    if method == "top":
        out = []
        while len(out) < n:
            cuts = sorted(rnd.sample(range(1, 128), C - 1))
            q = [b - a for a, b in zip([0] + cuts, cuts + [128])]
            if sorted(q)[-1] > sorted(q)[-2]:
                rnd.shuffle(q)
                out.append(q)
        return np.array(out, dtype="float32") / 128
    return np.array([rnd.randint(lo, 128) for _ in range(n)], dtype="float32") / 128


SHAPES = [(8, 5, 3, 2, (3, 4)), (6, 3, 2, 2, (1, 2)), (5, 9, 3, 1, (4, 5)), (7, 3, 3, 3, (5, 8)), (4, 5, 2, 2, (1, 1)), (8, 3, 2, 1, (1, 2))]


def problem(rnd, method, shape):
    # few different shapes: most of the time goes into compiling for a new one
    n, nb, C, G, spl = SHAPES[shape]
    C = C if method == "top" else 1
    d = dict(method=method, n=nb, mult=False, cn=16, cd=16)
    if method == "mvp":
        sc = np.array([rnd.randint(0, 64) for _ in range(n)], dtype="float32") / 64
        d["cn"] = rnd.choice([8, 12, 14, 15])
    else:
        d["mult"] = rnd.random() < .3
        while True:
            sc = np.array([rnd.randrange(max(2, C)) for _ in range(n)], dtype="int32")
            if method == "top" or len(set(sc.tolist())) == 2:
                break
    mult = d["mult"]
    v = vals_for(rnd, method, n, C, 16 if mult else 0)
    if rnd.random() < .3 and method == "binary":      # the same few values again and again
        some = [v[rnd.randrange(n)] for _ in range(2)]
        v = np.array([rnd.choice(some) for _ in range(n)], dtype="float32")
    gr = np.array([[g == 0 or rnd.random() < .6 for g in range(G)] for _ in range(n)])
    if rnd.random() < .3:
        gr = np.array([[rnd.random() < .6 for g in range(G)] for _ in range(n)])
    m = 4
    d.update(scores=sc, v=v, gr=gr, tv=vals_for(rnd, method, m, C), tgr=np.array([[rnd.random() < .7 for g in range(G)] for _ in range(m)]), C=C)
    d["en"], d["ed"] = rnd.choice([(1, 1), (1, 2), (1, 8), (3, 4), (1, 4)])
    d["spn"], d["spd"] = spl
    d["taus"] = rnd.choice([("=",), ("<=", ">="), (">=", "<="), ("=", ">=", "<="), ("<=",), ("=", "<=")])
    d["mp"] = rnd.choice([None, (1, 4), (1, 2), (1, 8), (0, 1)])
    if d["mp"] is None and (len(sc) % (d["n"] * C) == 0 or -(-len(sc) * d["spn"] // d["spd"]) % (d["n"] * C) == 0):
        d["mp"] = (1, 8)
    if d["mp"] is not None and d["mp"][0] and -(-len(sc) * d["spn"] // d["spd"]) % d["mp"][1] == 0 and rnd.random() < .5:
        pass
    d["atol"] = rnd.choice([1e-4, 1 / 32, 1 / 8, 1 / 16, 0.0])
    d["rn"], d["rd"] = rnd.choice([(0, 1), (0, 1), (1, 8), (1, 4)])
    d["gnone"] = G == 1 and bool(gr.all()) and rnd.random() < .7
    if d["gnone"]:
        d["tgr"] = np.ones((m, 1), dtype=bool)
    d["seed"] = rnd.randrange(4)
    d["again"] = rnd.random() < .4
    return d


def model(d, cls=None):
    if d["method"] == "binary":
        return BinaryClassificationMulticalibrator(seed=d["seed"])
    if d["method"] == "top":
        return TopLabelMulticalibrator(n_classes=d["C"], seed=d["seed"])
    return BatchMVPConformalClassifier(seed=d["seed"])


def names(d):
    return ("scores", "thresholds", "test_thresholds") if d["method"] == "mvp" else ("targets", "probs", "test_probs")


TAU = {"=": 0, ">=": 1, "<=": 2}


def iterative(d, rounds, ev):
    sn, vn, tn = names(d)
    n, C = len(d["scores"]), d["C"]
    if d["method"] == "top":
        sc = [[S * int(t == c) for c in range(C)] for t in d["scores"]]
    else:
        sc = [[int(round(float(t) * S))] for t in d["scores"]]
    ls = LS[d["method"]]
    mp = d["mp"] or (1, d["n"] * (C if d["method"] == "top" else 1))
    opt = lambda x: [] if math.isnan(float(x)) else [fx(x, ls)]
    g = None if d["gnone"] else jnp.asarray(d["gr"])
    tg = None if d["gnone"] else jnp.asarray(d["tgr"])
    base = {sn: jnp.asarray(d["scores"]), vn: jnp.asarray(d["v"]), tn: jnp.asarray(d["tv"]), "groups": g, "test_groups": tg}
    if d.get("novalues"):
        v0 = model(d).init_probs(n)
        base[vn] = None
        base[tn] = None
        tv0 = model(d).init_probs(len(d["tgr"]))
    else:
        v0, tv0 = d["v"], d["tv"]
    opts = dict(atol=d["atol"], rtol=d["rn"] / d["rd"] if d["rn"] else 1e-6, min_prob_b="auto" if d["mp"] is None else d["mp"][0] / d["mp"][1],
                n_buckets=d["n"], eta=d["en"] / d["ed"], split=d["spn"] / d["spd"], bucket_types=d["taus"],
                patch_type="multiplicative" if d["mult"] else "additive")
    if d["method"] == "mvp":
        opts["coverage"] = d["cn"] / d["cd"]
    start = dict(a="start", method=d["method"], sc=sc, gr=d["gr"].tolist(), tgr=d["tgr"].tolist(), n=d["n"], taus=sorted(TAU[t] for t in d["taus"]),
                 mpn=mp[0], mpd=mp[1], en=d["en"], ed=d["ed"], mult=d["mult"], cn=d["cn"], cd=d["cd"], v0=two(v0), tv0=two(tv0),
                 spn=d["spn"], spd=d["spd"], atol=fx(d["atol"], ls), rn=d["rn"], rd=d["rd"])
    runs = []
    for k in range(1, rounds + 1):
        m = model(d)
        kw = {**base, **opts, "n_rounds": k}
        keep = {a: None if b is None else np.array(b) for a, b in base.items()}
        if k == min(2, rounds) and d["again"]:
            # the same object has calibrated something else before
            w = {**kw, sn: jnp.asarray(np.asarray(d["scores"])[::-1].copy()), "n_rounds": 1}
            m.calibrate(**w)
        tret, st = m.calibrate(**kw)
        ok = all((b is None and keep[a] is None) or np.array_equal(np.asarray(b), keep[a]) for a, b in base.items())
        va = m.apply_patches(g, base[vn]) if base[vn] is not None else m.apply_patches(g, None) if g is not None else m.apply_patches(None, jnp.asarray(v0))
        tv = m.apply_patches(tg, base[tn]) if (tg is not None or base[tn] is not None) else m.apply_patches(None, jnp.asarray(tv0))
        pats = [[int(t), int(gg), fx(v, S), int(c), fx(p, S)] for t, gg, v, c, p in m.patches]
        runs.append(dict(a="run", k=k, n_rounds=int(st["n_rounds"]), losses=[opt(x) for x in st["losses"]], converged=bool(st["converged"]),
                         patches=pats, vals=two(va), tvals=two(tv), tret=two(tret), untouched=ok))
    start["loss0"] = runs[0]["losses"][0]
    ev.append(start)
    ev.extend(runs)
    if d["method"] == "binary" and not d["gnone"]:
        # without values patches start from the method's own initial values
        got = m.apply_patches(tg, None)
        want = m.apply_patches(tg, m.init_probs(len(d["tgr"])))
        ev.append(dict(a="default", got=two(got), want=two(want)))


def scenarios(a):
    rnd = random.Random(a.seed * 77 + 5)
    big = a.tier != "quick"
    out = []
    m = 6 if big else 1

    def add(kind, n, **kw):
        for j in range(n):
            out.append(dict(kind=kind, name="%s-%d" % (kind, j), rs=rnd.randrange(10 ** 9), shape=len(out) % 6, **{k: (v(j) if callable(v) else v) for k, v in kw.items()}))
    if a.part == "iter":
        sc = json.load(open(a.scen)) if a.scen else []
        rnd.shuffle(sc)
        add("gen", min(40 * m, len(sc)), sc=lambda j: sc[j])
        add("binary", 90 * m)
        add("top", 48 * m)
        add("mvp", 90 * m)
        add("novalues", 8 * m)
        add("nopatch", 6)
        add("error", 60 * m)
        add("mvpset", 30 * m)
    else:
        sc = json.load(open(a.scen)) if a.scen else []
        rnd.shuffle(sc)
        add("onegen", min(120 * m, len(sc)), sc=lambda j: sc[j])
        add("onebin", 160 * m)
        add("onetop", 120 * m)
        add("onenone", 4)
    return out


def run(sc, a):
    rnd = random.Random(sc["rs"])
    ev = []
    try:
        globals()["do_" + sc["kind"]](sc, rnd, ev, a)
    except Exception as e:
        raise Partial({"none": 0}, ev, e)
    return {"none": 0}, ev


def do_gen(sc, rnd, ev, a):
    g = sc["sc"]
    d = problem(rnd, "binary", sc["shape"])
    n = len(g["v"])
    d.update(v=np.array([x[0] for x in g["v"]], dtype="float32") / S, scores=np.array([int(x[0] > 0) for x in g["t"]], dtype="int32"),
             gr=np.array(g["g"]), n=3, mp=(1, 3), en=1, ed=1, mult=False, spn=1, spd=2, gnone=False,
             taus=tuple({0: "=", 1: ">=", 2: "<="}[t] for t in g["taus"]), C=1)
    d["tv"] = np.array([rnd.randint(0, 128) for _ in range(3)], dtype="float32") / 128
    d["tgr"] = np.array([[True, rnd.random() < .5] for _ in range(3)])
    if len(d["gr"][0]) != 2:
        raise ValueError("scenario")
    iterative(d, 4, ev)


def do_binary(sc, rnd, ev, a):
    iterative(problem(rnd, "binary", sc["shape"]), 5 if a.tier == "quick" else 7, ev)


def do_top(sc, rnd, ev, a):
    iterative(problem(rnd, "top", sc["shape"]), 4 if a.tier == "quick" else 6, ev)


def do_mvp(sc, rnd, ev, a):
    iterative(problem(rnd, "mvp", sc["shape"]), 5 if a.tier == "quick" else 7, ev)


def do_novalues(sc, rnd, ev, a):
    d = problem(rnd, "binary", sc["shape"])
    d.update(novalues=True, gnone=False, mult=False)
    iterative(d, 3, ev)


def do_nopatch(sc, rnd, ev, a):
    for method in ("binary", "top", "mvp"):
        d = problem(rnd, method, sc["shape"])
        m = model(d)
        ev.append(dict(a="nopatch", got=two(m.apply_patches(jnp.asarray(d["gr"]), jnp.asarray(d["v"]))), want=two(d["v"])))
        ev.append(dict(a="nopatch", got=two(m.apply_patches(None, jnp.asarray(d["v"]))), want=two(d["v"])))


def do_error(sc, rnd, ev, a):
    for method in ("binary", "top", "mvp"):
        d = problem(rnd, method, sc["shape"])
        sn, vn, tn = names(d)
        m = model(d)
        kw = {sn: jnp.asarray(d["scores"]), vn: jnp.asarray(d["v"]), "groups": jnp.asarray(d["gr"])}
        if method == "mvp":
            m.calibrate(n_rounds=1, n_buckets=3, coverage=d["cn"] / d["cd"], **kw)
        er = np.asarray(m.calibration_error(n_buckets=d["n"], **kw))
        C = d["C"]
        s = [[S * int(t == c) for c in range(C)] for t in d["scores"]] if method == "top" else [[int(round(float(t) * S))] for t in d["scores"]]
        er = er.reshape(len(d["gr"][0]), -1)
        ev.append(dict(a="error", method=method, sc=s, gr=d["gr"].tolist(), v=two(d["v"]), n=d["n"], cn=d["cn"], cd=d["cd"],
                       taus=[0], mult=False, err=[[fx(x, 2 ** 20) for x in r] for r in er]))
        if method == "mvp":
            # without thresholds the method starts from its initial (zero) values, as everywhere else
            er0 = np.asarray(m.calibration_error(kw[sn], groups=kw["groups"], n_buckets=d["n"])).reshape(len(d["gr"][0]), -1)
            ev.append(dict(ev[-1], v=[[0] for _ in d["scores"]], err=[[fx(x, 2 ** 20) for x in r] for r in er0]))


def do_mvpset(sc, rnd, ev, a):
    n, C = rnd.randint(1, 6), rnd.randint(1, 4)
    cs = np.array([[rnd.randint(0, 16) for _ in range(C)] for _ in range(n)])
    th = np.array([rnd.randint(0, 16) for _ in range(n)])
    if rnd.random() < .3:
        cs[:] = cs[:1]
        th[:] = th[0]
    sets = BatchMVPConformalClassifier().conformal_set(jnp.asarray(cs / 16), jnp.asarray(th / 16))
    ev.append(dict(a="mvpset", cs=cs.tolist(), th=th.tolist(), sets=[list(s) if isinstance(s, (list, tuple)) else [s] for s in sets]))


def oneshot(method, v, targets, tv, n, mp, C, jx, ev):
    mk = (lambda: OneShotTopLabelMulticalibrator(n_classes=C)) if method == "top" else OneShotBinaryClassificationMulticalibrator
    f = jnp.asarray if jx else (lambda x: jnp.asarray(x))
    args = dict(targets=f(targets), probs=f(v), test_probs=f(tv))
    keep = {k: np.array(x) for k, x in args.items()}
    m = mk()
    if len(v) % 2:      # the same object has calibrated something else before
        m.calibrate(**{**args, "targets": f(np.asarray(targets)[::-1].copy())}, n_buckets=n, min_prob_b=0.0)
    ret = m.calibrate(**args, n_buckets=n, min_prob_b="auto" if mp is None else mp[0] / mp[1])
    out = m.apply_patches(args["test_probs"])
    alone = [two(m.apply_patches(args["test_probs"][i:i + 1]))[0] for i in range(len(tv))]
    ok = all(np.array_equal(np.asarray(args[k]), keep[k]) for k in args)
    m2 = mp or (1, n * (C if method == "top" else 1))
    s = [[S * int(t == c) for c in range(C)] for t in targets] if method == "top" else [[S * int(t)] for t in targets]
    ev.append(dict(a="oneshot", method=method, sc=s, v=two(v), tv=two(tv), n=n, mpn=m2[0], mpd=m2[1], ret=two(ret), out=two(out), alone=alone, untouched=ok))


def do_onegen(sc, rnd, ev, a):
    g = sc["sc"]
    v = np.array([x[0] for x in g["v"]], dtype="float32") / S
    t = np.array([int(x[0] > 0) for x in g["t"]], dtype="int32")
    tv = np.concatenate([v, np.array([rnd.randint(0, 128) for _ in range(2)], dtype="float32") / 128])
    oneshot("binary", v, t, tv, rnd.choice([3, 5]), rnd.choice([(0, 1), (1, 4), (1, 2)]), 1, True, ev)


def do_onebin(sc, rnd, ev, a):
    N = rnd.randint(2, 10)
    n = rnd.choice([3, 5, 9])
    t = [rnd.randrange(2) for _ in range(N)]
    t[0], t[1] = 0, 1
    mp = rnd.choice([None, (0, 1), (1, 8), (1, 4), (1, 2)])
    if mp is None and N % n == 0:
        mp = (1, 8)
    oneshot("binary", vals_for(rnd, "binary", N, 1), np.array(t, dtype="int32"), vals_for(rnd, "binary", rnd.randint(1, 6), 1), n, mp, 1, True, ev)


def do_onetop(sc, rnd, ev, a):
    N, C = rnd.randint(2, 10), rnd.choice([2, 3])
    n = rnd.choice([3, 5, 9])
    mp = rnd.choice([None, (0, 1), (1, 8), (1, 4)])
    if mp is None and N % (n * C) == 0:
        mp = (1, 8)
    oneshot("top", vals_for(rnd, "top", N, C), np.array([rnd.randrange(C) for _ in range(N)], dtype="int32"), vals_for(rnd, "top", rnd.randint(1, 6), C), n, mp, C, True, ev)


def do_onenone(sc, rnd, ev, a):
    v = vals_for(rnd, "binary", 4, 1)
    ev.append(dict(a="nopatch", got=two(OneShotBinaryClassificationMulticalibrator().apply_patches(jnp.asarray(v))), want=two(v)))


if __name__ == "__main__":
    main(scenarios, run)
