"""Runs the conformal methods on small exact inputs and records what they return."""
from common import *
import copy
import jax, jax.numpy as jnp
from fortuna.conformal import (
    AdaptiveConformalClassifier, AdaptiveConformalRegressor, AdaptivePredictionConformalClassifier,
    CVPlusAdaptivePredictionConformalClassifier, CVPlusConformalRegressor,
    CVPlusSimplePredictionConformalClassifier, EnbPI, JackknifeMinmaxConformalRegressor,
    JackknifePlusConformalRegressor, OneDimensionalUncertaintyConformalRegressor,
    QuantileConformalRegressor, SimplePredictionConformalClassifier)

S, K, A = 16, 32, 65536
ERRS = [(1, 20), (1, 10), (1, 8), (1, 4), (3, 8), (1, 2), (5, 8), (7, 8), (1, 16), (3, 16), (2, 5), (3, 5)]


def same(a, b):
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return np.asarray(a).shape == np.asarray(b).shape and np.asarray(a).dtype == np.asarray(b).dtype and bool((np.asarray(a) == np.asarray(b)).all())


def guarded(fn, *args, **kw):
    """(result, arguments left alone)"""
    a0, k0 = copy.deepcopy(args), copy.deepcopy(kw)
    r = fn(*args, **kw)
    return r, all(same(x, y) for x, y in zip(a0, args)) and all(same(k0[k], kw[k]) for k in kw)


def rows(rnd, n, k, D=64):
    out = []
    while len(out) < n:
        cuts = sorted(rnd.sample(range(1, D), k - 1))
        p = [b - a for a, b in zip([0] + cuts, cuts + [D])]
        if len(set(p)) == k:
            rnd.shuffle(p)
            out.append(p)
    return out


def scenarios(a):
    rnd = random.Random(a.seed * 101 + 7)
    big = a.tier != "quick"
    sc = json.load(open(a.scen)) if a.scen else []
    rnd.shuffle(sc)
    out = []

    def add(kind, n, **kw):
        for j in range(n):
            d = dict(kind=kind, name="%s-%d" % (kind, j), rs=rnd.randrange(10 ** 9), jx=rnd.random() < .3)
            d.update({k: (v(j) if callable(v) else v) for k, v in kw.items()})
            out.append(d)
    m = 8 if big else 1
    if a.part == "sets":
        add("gensets", min(150 * m, len(sc)), sc=lambda j: sc[j])
        add("sets", 110 * m)
        add("cvsets", 60 * m)
    elif a.part == "iv":
        g = [s for s in sc]
        add("geniv", min(110 * m, len(g)), sc=lambda j: g[j])
        add("cqr", 60 * m)
        add("oned", 60 * m)
        add("cvplus", 60 * m)
        add("jack", 50 * m)
        add("minmax", 50 * m)
    elif a.part == "enbpi":
        add("enbpi", 160 * m)
    else:
        add("ad", 160 * m)
        add("adbad", 20)
    return out


def arr(x, jx, dt="float32"):
    x = np.asarray(x, dtype=dt)
    return jnp.asarray(x) if jx else x


def setev(rnd, kind, cls, folds, D, num, den, jx, cv):
    fl = [dict(p=arr(np.array(f["probs"]) / D, jx), y=arr(f["targets"], jx, "int32"), t=arr(np.array(f["test"]) / D, jx)) for f in folds]
    c = cls()
    if cv:
        args = ([f["p"] for f in fl], [f["y"] for f in fl], [f["t"] for f in fl])
    else:
        args = (fl[0]["p"], fl[0]["y"], fl[0]["t"])
    sets, ok = guarded(c.conformal_set, *args, num / den)
    smaller = c.conformal_set(*args, max(0.0, num / den - rnd.choice([1 / 16, 1 / 4, 1 / 3])))
    cal, _ = c.get_scores(*args)
    k = len(folds[0]["probs"][0])
    ask = [rnd.randrange(k) for _ in sets]
    isin = c.is_in(np.array(ask), sets)
    return dict(a="sets", kind=kind, D=D, folds=folds, num=num, den=den, sets=[list(s) for s in sets], untouched=ok,
                smaller=[list(s) for s in smaller], calscores=fx(cal, D), ask=ask, isin=[bool(x) for x in isin])


def ivchk(fn, args, perm, num, den, rnd):
    """interval at num/den, inputs untouched, invariance under a permutation of the calibration points, nesting"""
    iv, ok = guarded(fn, *args, num / den)
    iv = np.asarray(iv, dtype="float64")
    p2 = np.asarray(fn(*perm, num / den))
    r = dict(iv=fx(iv, S * K), untouched=ok, permuted=bool(np.allclose(iv, p2, atol=1e-4)))
    big = min(1.0, num / den + rnd.choice([1 / 16, 1 / 8, 1 / 4]))
    w = np.asarray(fn(*args, big))
    r["nested"] = bool((iv[:, 0] <= w[:, 0] + 1e-4).all() and (iv[:, 1] >= w[:, 1] - 1e-4).all())
    return r


def defined(n, num, den):
    return -(-(n + 1) * (den - num) // den) <= n


def run(sc, a):
    rnd = random.Random(sc["rs"])
    nr = np.random.RandomState(sc["rs"] % 2 ** 31)
    jx = sc["jx"]
    ev = []
    try:
        getattr(sys.modules[__name__], "do_" + sc["kind"])(sc, rnd, nr, jx, ev)
    except Exception as e:
        raise Partial({"none": 0}, ev, e)
    return {"none": 0}, ev


def do_gensets(sc, rnd, nr, jx, ev):
    # scores s (0..MaxS) become 1 - p(label) with two classes
    g = sc["sc"]
    D = 16
    row = lambda s: [D - 1 - 2 * s, 1 + 2 * s]          # label 0 has score 1+2s, label 1 score D-1-2s
    f = dict(probs=[row(s) for s in g["s"]], targets=[0] * len(g["s"]), test=[row(g["t"]), row(3)])
    ev.append(setev(rnd, "simple", SimplePredictionConformalClassifier, [f], D, g["num"], g["den"], jx, False))
    if g["num"] % 2 == 0:
        ev.append(setev(rnd, "adaptive", AdaptivePredictionConformalClassifier, [f], D, g["num"], g["den"], jx, False))


def do_sets(sc, rnd, nr, jx, ev):
    k = rnd.randint(2, 5)
    n = rnd.choice([1, 2, 3, 5, 9, 14, 19])
    for kind, cls in (("simple", SimplePredictionConformalClassifier), ("adaptive", AdaptivePredictionConformalClassifier)):
        f = dict(probs=rows(rnd, n, k), targets=[rnd.randrange(k) for _ in range(n)], test=rows(rnd, rnd.randint(1, 6), k))
        num, den = rnd.choice(ERRS)
        ev.append(setev(rnd, kind, cls, [f], 64, num, den, jx, False))


def do_cvsets(sc, rnd, nr, jx, ev):
    k = rnd.randint(2, 4)
    t = rnd.randint(1, 3)
    for kind, cls in (("simple", CVPlusSimplePredictionConformalClassifier), ("adaptive", CVPlusAdaptivePredictionConformalClassifier)):
        fs = []
        for _ in range(rnd.randint(1, 3)):
            n = rnd.randint(1, 6)
            fs.append(dict(probs=rows(rnd, n, k), targets=[rnd.randrange(k) for _ in range(n)], test=rows(rnd, t, k)))
        num, den = rnd.choice(ERRS)
        ev.append(setev(rnd, kind, cls, fs, 64, num, den, jx, True))


def ints(nr, *shape, lo=-160, hi=160):
    return nr.randint(lo, hi, size=shape)


def cqr(ev, rnd, jx, lo, hi, y, tlo, thi, num, den, shape2=False):
    c = QuantileConformalRegressor()
    n = len(y)
    f = lambda x: arr(np.asarray(x) / S, jx)
    col = (lambda x: x[:, None]) if shape2 else (lambda x: x)
    L, H, Y, TL, TH = f(lo), f(hi), f(y)[:, None], f(tlo), f(thi)
    p = rnd.sample(range(n), n)
    fn = lambda l, h, tl, th, yy, e: c.conformal_interval(l, h, tl, th, yy, e)
    r = ivchk(fn, (col(L), col(H), col(TL), col(TH), Y), (L[np.array(p)], H[np.array(p)], TL, TH, Y[np.array(p)]), num, den, rnd)
    sco = c.score(L, H, Y)
    q = c.quantile(L, H, Y, num / den)
    iv2 = c.conformal_interval(L, H, TL, TH, Y, num / den, quantile=q)
    r["permuted"] = r["permuted"] and same(fx(iv2, S * K), r["iv"]) and same(fx(c.quantile(L, H, Y, num / den, scores=sco), S * K), fx(q, S * K))
    ask = [rnd.choice([tlo[i] - rnd.randint(-40, 40), thi[i] + rnd.randint(-40, 40)]) for i in range(len(tlo))]
    iv = np.array(r["iv"]) / (S * K)
    isin = c.is_in(np.array(ask) / S, iv)
    r.update(a="cqr", lo=lo, hi=hi, y=y, tlo=tlo, thi=thi, num=num, den=den, tol=4, scores=fx(sco, S * K), q=fx(q, S * K),
             ask=ask, isin=[bool(x) for x in isin])
    ev.append(r)


def oned(ev, rnd, jx, y, m, u4, tm, tu4, num, den):
    c = OneDimensionalUncertaintyConformalRegressor()
    n = len(y)
    f = lambda x, s=S: arr(np.asarray(x) / s, jx)[:, None]
    M, U, Y, TM, TU = f(m), f(u4, 4), f(y), f(tm), f(tu4, 4)
    p = np.array(rnd.sample(range(n), n))
    fn = lambda mm, uu, t1, t2, yy, e: c.conformal_interval(mm, uu, t1, t2, yy, e)
    r = ivchk(fn, (M, U, TM, TU, Y), (M[p], U[p], TM, TU, Y[p]), num, den, rnd)
    sco = c.score(M, U, Y)
    q = c.quantile(M, U, Y, num / den)
    iv2 = c.conformal_interval(M, U, TM, TU, Y, num / den, quantile=q)
    r["permuted"] = r["permuted"] and same(fx(iv2, S * K), r["iv"])
    r.update(a="oned", y=y, m=m, u4=u4, tm=tm, tu4=tu4, num=num, den=den, tol=24, scores=fx(sco, S * K), q=fx(q, S * K))
    ev.append(r)


def loo(ev, rnd, jx, kind, y, m, pr, num, den, shape1=False):
    c = JackknifeMinmaxConformalRegressor() if kind == "minmax" else JackknifePlusConformalRegressor()
    f = lambda x: arr(np.asarray(x) / S, jx)
    n = len(y)
    p = np.array(rnd.sample(range(n), n))
    M, Y, P = f(m)[:, None], f(y)[:, None], f(pr)[:, :, None]
    args = (f(m), f(y), f(pr)) if shape1 else (M, Y, P)
    r = ivchk(lambda *z: c.conformal_interval(*z), args, (M[p], Y[p], P[p]), num, den, rnd)
    r.update(a="loo", kind=kind, y=y, m=m, pr=pr, num=num, den=den, tol=4)
    ev.append(r)


def cvplus(ev, rnd, jx, sizes, y, m, folds_pr, num, den, shape1=False):
    c = CVPlusConformalRegressor()
    f = lambda x: (lambda z: z if shape1 else z[:, None])(arr(np.asarray(x) / S, jx))
    ys, ms, j = [], [], 0
    for s in sizes:
        ys.append(f(y[j:j + s])); ms.append(f(m[j:j + s])); j += s
    ps = [f(x) for x in folds_pr]
    o = rnd.sample(range(len(sizes)), len(sizes))
    r = ivchk(lambda *z: c.conformal_interval(*z), (ms, ys, ps), ([ms[i] for i in o], [ys[i] for i in o], [ps[i] for i in o]), num, den, rnd)
    pr = [folds_pr[k] for k, s in enumerate(sizes) for _ in range(s)]
    r.update(a="loo", kind="cv", y=y, m=m, pr=pr, num=num, den=den, tol=4)
    ev.append(r)


def L(x):
    return np.asarray(x).tolist()


def do_geniv(sc, rnd, nr, jx, ev):
    g = sc["sc"]
    n, num, den = len(g["s"]), g["num"], g["den"]
    s = [8 * v for v in g["s"]]
    if defined(n, num, den):
        cqr(ev, rnd, jx, [0] * n, [0] * n, s, [-5, 3], [2, 3], num, den)
        oned(ev, rnd, jx, s, [0] * n, [4] * n, [0, 7], [4, 8], num, den)
    pr = [[8 * ((v + i) % 3), 8 * g["t"]] for i, v in enumerate(g["s"])]
    loo(ev, rnd, jx, "plus", s, [0] * n, pr, num, den)
    loo(ev, rnd, jx, "minmax", s, [0] * n, pr, num, den)


def pick(rnd, n, need=True):
    while True:
        num, den = rnd.choice(ERRS)
        if not need or defined(n, num, den):
            return num, den


def do_cqr(sc, rnd, nr, jx, ev):
    n, t = rnd.choice([1, 2, 3, 4, 7, 10, 19, 20]), rnd.randint(1, 4)
    lo, tlo = ints(nr, n), ints(nr, t)
    num, den = pick(rnd, n)
    cqr(ev, rnd, jx, L(lo), L(lo + ints(nr, n, lo=-10, hi=80)), L(ints(nr, n)), L(tlo), L(tlo + ints(nr, t, lo=0, hi=60)), num, den,
        shape2=rnd.random() < .3)


def do_oned(sc, rnd, nr, jx, ev):
    n, t = rnd.choice([1, 2, 3, 4, 7, 10, 19]), rnd.randint(1, 4)
    num, den = pick(rnd, n)
    y = 8 * ints(nr, n, lo=-20, hi=20); m = 8 * ints(nr, n, lo=-20, hi=20)
    oned(ev, rnd, jx, L(y), L(m), L(nr.choice([1, 2, 4, 8, 16], size=n)), L(ints(nr, t)), L(nr.choice([1, 2, 4, 8], size=t)), num, den)


def do_jack(sc, rnd, nr, jx, ev, kind="plus"):
    n, t = rnd.choice([1, 2, 3, 5, 8, 12]), rnd.randint(1, 4)
    num, den = pick(rnd, n, False)
    loo(ev, rnd, jx, kind, L(ints(nr, n)), L(ints(nr, n)), L(ints(nr, n, t)), num, den, shape1=rnd.random() < .4)


def do_minmax(sc, rnd, nr, jx, ev):
    do_jack(sc, rnd, nr, jx, ev, "minmax")


def do_cvplus(sc, rnd, nr, jx, ev):
    sizes = [rnd.randint(1, 5) for _ in range(rnd.randint(1, 4))]
    n, t = sum(sizes), rnd.randint(1, 4)
    num, den = pick(rnd, n, False)
    cvplus(ev, rnd, jx, sizes, L(ints(nr, n)), L(ints(nr, n)), L(ints(nr, len(sizes), t)), num, den, shape1=rnd.random() < .4)


AGG = {"mean": None, "max": lambda x: jnp.max(x, 0), "min": lambda x: jnp.min(x, 0)}


def do_enbpi(sc, rnd, nr, jx, ev):
    f = rnd.choice(["mean", "mean", "max", "min"])
    c = EnbPI() if f == "mean" else EnbPI(aggregation_fun=AGG[f])
    nb, n, m = rnd.choice([1, 2, 3, 5, 8]), rnd.choice([2, 3, 4, 6, 9]), rnd.randint(1, 3)
    idx = nr.choice(n, size=(nb, n))
    if rnd.random() < .2:
        idx[:, 0] = 0                       # point 0 is in every bootstrap sample
    num, den = rnd.choice(ERRS)
    d3 = rnd.random() < .4
    g = lambda x: (lambda z: z[..., None] if d3 else z)(np.asarray(x, dtype="float32") / S)
    train, test, y = ints(nr, nb, n), ints(nr, nb, m), ints(nr, n)
    (iv, res), ok = guarded(lambda *z: c.conformal_interval(*z, return_residuals=True), idx, g(train), g(test), g(y), num / den)
    iv1 = c.conformal_interval(idx, g(train), g(test), g(y), num / den)
    ev.append(dict(a="enbpi", f=f, idx=L(idx), train=L(train), test=L(test), y=L(y), num=num, den=den, tol=8,
                   iv=fx(iv, S * K), res=fx(res, S * K), untouched=ok and same(np.asarray(iv), np.asarray(iv1))))
    for _ in range(rnd.randint(1, 4)):
        k, m = rnd.randint(1, n + 1 if rnd.random() < .2 else min(3, n)), rnd.randint(1, 3)
        train, test, y = ints(nr, nb, k), ints(nr, nb, m), ints(nr, k)
        (iv, res), ok = guarded(c.conformal_interval_from_residuals, res, g(train), g(test), g(y), num / den)
        ev.append(dict(a="enbpi_new", f=f, train=L(train), test=L(test), y=L(y), num=num, den=den, tol=8,
                       iv=fx(iv, S * K), res=fx(res, S * K), untouched=ok))


def wts(rnd, n):
    while True:
        c = sorted(rnd.randint(0, 64) for _ in range(n - 1))
        w = sorted(b - a for a, b in zip([0] + c, c + [64]))
        return w


def do_ad(sc, rnd, nr, jx, ev):
    reg = rnd.random() < .5
    c = (AdaptiveConformalRegressor(QuantileConformalRegressor()) if reg else
         AdaptiveConformalClassifier(rnd.choice([SimplePredictionConformalClassifier, AdaptivePredictionConformalClassifier])()))
    err = rnd.choice([0, 1, 3, 32, 62, 64]) / 64
    ev.append(dict(a="ad_start", error=fx(err, A)))
    te = rnd.randint(0, 64)
    gnum, gden = rnd.choice([(1, 8), (1, 2), (1, 64), (1, 1), (2, 1), (1, 200)])
    were = []
    mode = rnd.choice(["plain", "weighted", "ret"])
    for t in range(rnd.randint(2, 7)):
        kw = dict(error=err, target_error=te / 64)
        if (gnum, gden) != (1, 200):
            kw["gamma"] = gnum / gden
        e = dict(a="ad", kind="interval" if reg else "set", te=te, gnum=gnum, gden=gden, weighted=False, w=[], were=[])
        if reg:
            lo = rnd.randint(-20, 20); hi = lo + rnd.randint(-2, 20)
            tg = rnd.choice([lo, hi, lo - 1, hi + 1, lo + 3])
            kw.update(conformal_interval=arr([lo / S, hi / S], jx), target=arr(tg / S if rnd.random() < .5 else [tg / S], jx))
            e.update(iv=[lo, hi], target=tg)
        else:
            st = sorted(rnd.sample(range(4), rnd.randint(0, 4)))
            tg = rnd.randrange(4)
            kw.update(conformal_set=st, target=arr(tg if rnd.random() < .5 else [tg], jx, "int32"))
            e.update(set=st, target=tg)
        if mode == "weighted" and were:
            h = were[-rnd.randint(1, len(were)):]
            w = wts(rnd, len(h) + 1)
            kw.update(weights=arr(np.array(w) / 64, jx), were_in=arr(h, jx, "int32"))
            e.update(weighted=True, w=w, were=list(h))
        r, ok = guarded(lambda **z: c.update_error(**z, return_were_in=True), **kw)
        e2 = c.update_error(**kw)
        e["untouched"] = ok and abs(float(e2) - float(r[0])) < 1e-6
        err = float(r[0])
        h = np.asarray(r[1]).ravel().astype(int).tolist()
        were = (were + [h[-1]])[-5:]
        e.update(error=fx(err, A), wereout=h)
        ev.append(e)


def do_adbad(sc, rnd, nr, jx, ev):
    c = AdaptiveConformalRegressor(QuantileConformalRegressor())
    d = AdaptiveConformalClassifier(SimplePredictionConformalClassifier())
    F = lambda x: arr(x, jx)
    bad = [dict(gamma=0.0), dict(gamma=-1.0), dict(weights=F([.5, .5])), dict(were_in=F([1])),
           dict(weights=F([.75, .25]), were_in=F([1])), dict(weights=F([.25, .5]), were_in=F([1])),
           dict(weights=F([-.25, 1.25]), were_in=F([1])), dict(weights=F([[.5], [.5]]), were_in=F([1])),
           dict(weights=F([.25, .75]), were_in=F([2])), dict(weights=F([.25, .75]), were_in=F([[1]])),
           dict(weights=F([.25, .75]), were_in=F([1, 0])), dict(weights=F([.25, .25, .5]), were_in=F([1]))]
    k = bad[sc["rs"] % len(bad)]
    for k in rnd.sample(bad, 5):
        _, x = attempt(lambda: c.update_error(conformal_interval=F([0., 1.]), error=.1, target=F([.5]), target_error=.1, **k))
        ev.append(dict(a="ad_bad", exc=x))
        _, x = attempt(lambda: d.update_error(conformal_set=[0], error=.1, target=arr([0], jx, "int32"), target_error=.1, **k))
        ev.append(dict(a="ad_bad", exc=x))


main(scenarios, run)
