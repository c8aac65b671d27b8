"""Replays operation sequences on the real state repositories."""
import shutil
from common import *
import jax.numpy as jnp, optax
from flax.core import FrozenDict
from fortuna.prob_model.posterior.map.map_state import MAPState
from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_state import SGHMCState
from fortuna.prob_model.posterior.swag.swag_state import SWAGState
from fortuna.prob_model.posterior.posterior_state_repository import PosteriorStateRepository
from fortuna.prob_model.posterior.posterior_multi_state_repository import PosteriorMultiStateRepository
from fortuna.prob_model.posterior.sgmcmc.sgmcmc_posterior_state_repository import SGMCMCPosteriorStateRepository
from fortuna.calib_model.calib_state_repository import CalibStateRepository
from fortuna.calib_model.state import CalibState
from fortuna.output_calib_model.output_calib_state_repository import OutputCalibStateRepository
from fortuna.output_calib_model.state import OutputCalibState
from fortuna.utils.strings import encode_tuple_of_lists_of_strings_to_numpy

FULL = ["p", "f", "m", "c", "cm", "o", "s"]
SMALL = ["p", "m", "o", "s"]


def arr(v, np_):
    """The array holding v everywhere."""
    x = np.full((2, 2), float(v), dtype="float32")
    return x if np_ else jnp.asarray(x)


def tok(x):
    if x is None:
        return 0
    if isinstance(x, (dict, FrozenDict)) or isinstance(x, (list, tuple)):
        vals = list(x.values()) if hasattr(x, "values") else list(x)
        ts = set(tok(v) for v in vals if not (hasattr(v, "__len__") and len(v) == 0))
        return ts.pop() if len(ts) == 1 else "mixed:%s" % sorted(map(str, ts))
    a = np.asarray(x)
    if a.dtype != np.float32:
        return "dtype:%s" % a.dtype
    v = set(a.ravel().tolist())
    return int(v.pop()) if len(v) == 1 else "mixed"


def tree(path, v, np_):
    """A stored variable; 0 stands for None."""
    if v == 0:
        return None
    t = arr(v, np_)
    for k in path[::-1]:
        t = {k: t}
    return FrozenDict(t)


def params(st, kind, np_):
    if kind == "oc":
        return {"output_calibrator": {"params": {"a": arr(st["p"], np_), "b": arr(st["p"], np_)}}}
    return {"model": {"params": {"a": {"kernel": arr(st["p"], np_), "bias": arr(st["p"], np_)},
                                 "z": {"kernel": arr(st["f"], np_)}}}}


def build(st, kind, np_):
    """A real state with the abstract contents st."""
    tx = optax.sgd(0.1, momentum=0.9)
    P = FrozenDict(params(st, kind, np_))
    kw = dict(mutable=tree(["model", "batch_stats", "x"], st["m"], np_), optimizer=tx)
    if kind != "oc":
        kw.update(calib_params=tree(["output_calibrator", "params", "t"], st["c"], np_),
                  calib_mutable=tree(["output_calibrator", "stats", "t"], st["cm"], np_))
        if kind == "sgmcmc":
            cls = SGHMCState
            kw["_encoded_which_params"] = encode_tuple_of_lists_of_strings_to_numpy(WHICH)
        elif kind == "swag":
            cls = SWAGState
            kw.update(mean=arr(st["p"], np_), std=arr(st["p"], np_), dev=arr(st["p"], np_))
            kw["_encoded_which_params"] = encode_tuple_of_lists_of_strings_to_numpy(WHICH)
        else:
            cls = CalibState if kind == "calib" else MAPState
        s = cls.init(params=P, **kw)
    else:
        s = OutputCalibState.init(params=P, **kw)
    import jax
    opt = jax.tree_util.tree_map(lambda x: arr(st["o"], np_), tx.init(P))
    return s.replace(step=st["s"], opt_state=opt)


WHICH = (["model", "params", "a", "bias"], ["model", "params", "a", "kernel"])


def fld(k, x, kind):
    if k == "s":
        return int(x)
    if k in ("p", "f"):
        d = x.unfreeze() if hasattr(x, "unfreeze") else x
        if kind == "oc":
            return tok(d) if k == "p" else 7
        if set(d) != {"model"} or set(d["model"]["params"]) != {"a", "z"} or set(d["model"]["params"]["a"]) != {"kernel", "bias"}:
            return "keys:%s" % sorted(d.get("model", {}).get("params", {}))
        return tok(d["model"]["params"]["a"] if k == "p" else d["model"]["params"]["z"])
    if k == "o":
        import jax
        ls = jax.tree_util.tree_leaves(x)
        ts = set(tok(v) for v in ls)
        return ts.pop() if len(ts) == 1 else ("none" if not ls else "mixed:%s" % ts)
    return tok(x)


NAMES = dict(p="params", f="params", m="mutable", c="calib_params", cm="calib_mutable", o="opt_state", s="step")


def dec(s, kind):
    if type(s).__name__ not in ("MAPState", "SGHMCState", "SWAGState", "CalibState", "OutputCalibState"):
        return "type:" + type(s).__name__
    r = {k: (fld(k, getattr(s, NAMES[k]), kind) if hasattr(s, NAMES[k]) else -1) for k in FULL}
    if kind == "sgmcmc" and s._encoded_which_params is None:
        return "which_params lost"
    if kind == "swag" and (s._encoded_which_params is None or {tok(s.mean), tok(s.std), tok(s.dev)} != {r["p"]}):
        return "swag moments lost"
    return r


def scribble(s):
    """Write into every writable array of a returned state: later reads must not notice."""
    import jax
    for x in jax.tree_util.tree_leaves((s.params, getattr(s, "mutable", None), getattr(s, "calib_params", None), s.opt_state)):
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x[...] = 77.0


def scenarios(a):
    rnd = random.Random(a.seed * 31 + 5)
    out = []
    sc = json.load(open(a.scen))
    kinds = ["map", "multi", "sgmcmc", "swag", "calib", "oc"]
    n = 420 if a.tier == "quick" else 4000
    rnd.shuffle(sc)
    for j, s in enumerate(sc[:n]):
        k = kinds[j % 6] if j % 2 else "multi"
        out.append(dict(name="gen-%s-%d" % (k, j), kind=k, disk=s["disk"], size=2, ops=s["ops"], np=j % 3 != 0))
    # longer histories with retention and arbitrary steps
    for j in range(120 if a.tier == "quick" else 800):
        k = rnd.choice(kinds[:4])
        size = rnd.randint(1, 3)
        ops = []
        for _ in range(rnd.randint(6, 18)):
            i = rnd.choice([-1] + list(range(0, size + 1)) + list(range(1, size + 1)))
            w = rnd.random()
            if w < .4:
                v = rnd.randint(1, 60)
                ops.append(dict(a="put", i=i, keep=rnd.choice([1, 1, 2, 3]),
                                st=dict(p=v, f=7, m=v + 1, c=rnd.choice([0, v + 2, v + 2]), cm=v + 3, o=v + 4, s=rnd.choice([0, 1, 2, 9, 10, 11, 100]))))
            elif w < .6:
                ops.append(dict(a="get", i=i, o=rnd.choice([0, 0, 9])))
            elif w < .68:
                ops.append(dict(a="pull", i=i, o=rnd.choice([0, 0, 9])))
            elif w < .85:
                ks = rnd.sample(["p", "m", "c", "cm"], rnd.randint(1, 3))
                ops.append(dict(a="update", i=i, v={q: 0 if q != "p" and rnd.random() < .2 else rnd.randint(1, 60) for q in ks}))
            elif w < .9:
                ops.append(dict(a="bad", i=i))
            else:
                ops.append(dict(a="extract", i=i, keys=sorted(rnd.sample(["p", "m", "c", "cm", "s"], rnd.randint(1, 3)))))
        out.append(dict(name="long-%s-%d" % (k, j), kind=k, disk=rnd.random() < .6, size=size, ops=ops, np=rnd.random() < .5))
    return out


def nofill(v, kind):
    return v if kind != "oc" else {k: (-1 if k in ("c", "cm") else x) for k, x in v.items()}


def run(sc, a):
    kind, size = sc["kind"], sc["size"]
    single = kind in ("map", "swag", "calib", "oc")
    if single:
        size = 1
    d = os.path.join(a.work, sc["name"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    ext = os.path.join(d, "ext")
    loc = os.path.join(d, "st") if sc["disk"] else None
    ev = []
    cfg = dict(disk=sc["disk"], size=size)
    try:
        if kind == "multi":
            R = PosteriorMultiStateRepository(size, loc)
        elif kind == "sgmcmc":
            R = SGMCMCPosteriorStateRepository(size, loc, all_params=FrozenDict(params(dict(p=50, f=7), kind, sc["np"])),
                                               which_params=WHICH)
        elif kind == "calib":
            R = CalibStateRepository(loc)
        elif kind == "oc":
            R = OutputCalibStateRepository(loc)
        else:
            R = PosteriorStateRepository(loc)
        tx9 = optax.sgd(0.1, momentum=0.9)

        class Nine:  # an optimizer whose memory starts at 9
            def init(self, p):
                import jax
                return jax.tree_util.tree_map(lambda x: x * 0 + 9, tx9.init(p))
            update = tx9.update

        def kw(i):
            r = {}
            if i == 0:
                r["checkpoint_path"] = ext
                if not single:
                    r["i"] = 0
            elif not single and i > 0:
                r["i"] = i - 1
            return r

        for op in sc["ops"]:
            op = dict(op)
            i = op["i"]
            if single and (i > 1):
                i = op["i"] = 1
            k = kw(i)
            e = dict(op)
            if op["a"] == "put":
                e["st"] = nofill(op["st"], kind)
                if kind == "oc":
                    e["st"]["f"] = 7
                _, x = attempt(lambda: R.put(build(op["st"], kind, sc["np"]), keep=op["keep"], **k))
            elif op["a"] in ("get", "pull"):
                if op.get("o"):
                    k["optimizer"] = Nine()
                r, x = attempt(lambda: getattr(R, op["a"])(**k))
                if x is None:
                    rs = r if isinstance(r, list) else [r]
                    e["ret"] = [dec(s, kind) for s in rs]
                    for s in rs:
                        scribble(s)
            elif op["a"] == "update":
                v = {}
                for q, t in op["v"].items():
                    if kind == "oc" and q in ("c", "cm"):
                        continue
                    if q == "p":
                        v["params"] = FrozenDict(params(dict(p=t, f=7), kind, sc["np"]))
                    else:
                        v[NAMES[q]] = tree({"m": ["model", "batch_stats", "x"], "c": ["output_calibrator", "params", "t"],
                                            "cm": ["output_calibrator", "stats", "t"]}[q], t, sc["np"])
                if kind == "swag":
                    for n in ("mean", "std", "dev"):
                        if "params" in v:
                            v[n] = arr(op["v"]["p"], sc["np"])
                e["v"] = {q: t for q, t in op["v"].items() if not (kind == "oc" and q in ("c", "cm"))}
                if not e["v"]:
                    e["v"] = {"zz": 0}
                _, x = attempt(lambda: R.update(v, **k))
            elif op["a"] == "bad":
                _, x = attempt(lambda: R.update({"nonexistent": 1}, **k))
            else:
                ks = [q for q in op["keys"] if not (kind == "oc" and q in ("c", "cm"))] or ["p"]
                e["keys"] = ks
                if ks == ["c", "cm"] and i == 1 and hasattr(R, "extract_calib_keys"):
                    r, x = attempt(lambda: R.extract_calib_keys())
                else:
                    r, x = attempt(lambda: R.extract([NAMES[q] for q in ks], **k))
                if x is None:
                    rs = r if isinstance(r, list) else [r]
                    e["ret"] = [({q: fld(q, s[NAMES[q]], kind) for q in ks} if len(s) == len(ks) else "keys") for s in rs]
            e["ok"] = x is None
            if x:
                e["exc"] = x
            # what every member holds now, looked at through fresh reads
            after, files = [], []
            for m in range(0, size + 1):
                r, x = attempt(lambda: R.get(**kw(m)))
                after.append([] if x else [dec(r, kind)])
                p = ext if m == 0 else (None if loc is None else (loc if single else os.path.join(loc, str(m - 1))))
                files.append(sorted(int(f.split("_")[1]) for f in os.listdir(p) if f.startswith("checkpoint_"))
                             if p and os.path.isdir(p) else [])
            e["after"], e["files"], e["peeked"] = after, files, True
            ev.append(e)
    except Exception as e:
        raise Partial(cfg, ev, e)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return cfg, ev


main(scenarios, run)
