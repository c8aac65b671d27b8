"""Shared by the harnesses (run under the repository's virtualenv)."""
import argparse, json, math, os, sys, traceback, random, warnings, logging
warnings.filterwarnings("ignore")
REPO = os.environ.get("VK_REPO", "/repo")
sys.path.insert(0, REPO)
import numpy as np

WHY = []   # why the last attempt failed (for the reports)
LIM = 2 ** 31 - 1


def args():
    ap = argparse.ArgumentParser()
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--out", required=True)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--scen")
    ap.add_argument("--work", default=".")
    ap.add_argument("--only", default="")
    ap.add_argument("--part", default="")
    return ap.parse_args()


def enc(x):
    """Make a value JSON/TLC friendly (ints, strings, booleans, lists, records)."""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return x if -LIM <= x <= LIM else "big:%d" % x
    if isinstance(x, float):
        return "float:%r" % x
    if isinstance(x, str):
        return x
    if x is None:
        return "none"
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return [enc(v) for v in sorted(x)]
    if hasattr(x, "tolist"):
        return enc(np.asarray(x).tolist())
    raise TypeError("cannot encode %r" % type(x))


def fx(x, scale):
    """Fixed point: nearest integer of x*scale, for scalars and arrays; non-finite
    values become strings (so that the specification rejects them)."""
    if hasattr(x, "shape") and getattr(x, "shape") != ():
        return [fx(v, scale) for v in np.asarray(x)]
    if isinstance(x, (list, tuple)):
        return [fx(v, scale) for v in x]
    v = float(x)
    if math.isnan(v):
        return "nan"
    if math.isinf(v):
        return "inf" if v > 0 else "-inf"
    v = v * scale
    if abs(v) > LIM:
        return "big"
    return int(round(v))


def main(scenarios, run):
    """scenarios(a) -> list of dicts with a "name"; run(sc, a) -> (cfg, events)."""
    a = args()
    logging.disable(logging.CRITICAL)
    i, k = map(int, a.shard.split("/"))
    out = []
    scs = scenarios(a)
    for n, sc in enumerate(scs):
        if n % k != i:
            continue
        if a.only and a.only not in sc["name"]:
            continue
        ev = []
        cfg = {"none": 0}
        try:
            r = run(sc, a)
            cfg, ev = r
        except Partial as p:
            cfg, ev = p.cfg, p.ev
            e = p.exc
            ev.append(dict(a="raise", exc=type(e).__name__, msg=str(e)[:400],
                           where=traceback.format_exc()[-1500:]))
        except Exception as e:
            ev.append(dict(a="raise", exc=type(e).__name__, msg=str(e)[:400],
                           where=traceback.format_exc()[-1500:]))
        if len(out) % 8 == 7 and "jax" in sys.modules:
            import gc
            sys.modules["jax"].clear_caches()
            gc.collect()
        out.append(dict(n=n, name=sc["name"], cfg=enc(cfg), ev=[enc(x) for x in ev]))
    with open(a.out, "w") as fh:
        json.dump(out, fh)


class Partial(Exception):
    def __init__(self, cfg, ev, exc):
        self.cfg, self.ev, self.exc = cfg, ev, exc


def attempt(fn, *a, **kw):
    """(value, None) or (None, exception class name)."""
    try:
        return fn(*a, **kw), None
    except Exception as e:  # noqa
        WHY[:] = [str(e)[:200], traceback.format_exc()[-700:]]
        return None, type(e).__name__
