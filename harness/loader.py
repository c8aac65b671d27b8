"""Drives fortuna.data.loader and records what the loaders yield."""
import os
os.environ["XLA_FLAGS"] = "--xla_force_host_platform_device_count=2"
from common import *
import jax
from fortuna.data.loader import DataLoader, InputsLoader, TargetsLoader
from fortuna.data.loader.base import ConcatenatedLoader, DeviceDimensionAugmentedLoader


def x_of(i):
    return np.stack([i, 3 * i + 1], -1)


def xid(x):
    x = np.asarray(x).reshape(-1, 2)
    return [int(a) if int(b) == 3 * (int(a) % 1000) + 1 else -7 for a, b in x]


def rows(b, kind):
    if kind == "data":
        x, y = b
        x, y = np.asarray(x), np.asarray(y).reshape(-1)
        if len(x.reshape(-1, 2)) != len(y):
            return [["unpaired", len(x), len(y)]]
        return [list(r) for r in zip(xid(x), y.tolist())]
    if kind == "inputs":
        return [[i, 0] for i in xid(b)]
    return [[0, int(t)] for t in np.asarray(b).reshape(-1)]


def one_pass(ld, kind, cap=400):
    out = []
    for b in ld:
        out.append(rows(b, kind))
        if len(out) > cap:
            return out
    return out


def look(ld, kind, passes=2):
    return dict(passes=[one_pass(ld, kind) for _ in range(passes)], size=ld.size, len=len(ld))


def xf(name, kind):
    def f(x, y, s):
        n = len(x if x is not None else y)
        key = x[:, 0] if x is not None else y
        if name == "keepeven":
            m = key % 2 == 0
            return (None if x is None else x[m]), (None if y is None else y[m]), s + 1
        if name == "skipodd":
            if s % 2 == 1:
                # both ways of saying "no batch"
                return (None, None, s + 1) if s % 4 == 1 else (
                    None if x is None else x[:0], None if y is None else y[:0], s + 1)
            return x, y, s + 1
        if name == "rev":
            return (None if x is None else x[::-1]), (None if y is None else y[::-1]), s + 1
        if name == "shift":
            return (None if x is None else x + np.array([1000 * s, 0]), None if y is None else y + 1000 * s, s + 1)
    f0 = f

    def f(x, y, s):
        # the status is a mutable object, changed in place
        x, y, n = f0(x, y, s["calls"][0])
        s["calls"][0] = n
        return x, y, s
    if kind == "data":
        return f
    if kind == "inputs":
        def g(x, s):
            a, _, s = f(x, None, s)
            return a, s
    else:
        def g(y, s):
            _, b, s = f(None, y, s)
            return b, s
    return g


def transform(ld, kind, name, s0):
    f, s0 = xf(name, kind), {"calls": [s0]}
    if kind == "data":
        return ld.to_transformed_data_loader(f, s0)
    if kind == "inputs":
        return ld.to_transformed_inputs_loader(f, s0)
    return ld.to_transformed_targets_loader(f, s0)


def source(kind, n, b, shuffle, prefetch, via):
    i = np.arange(1, n + 1)
    x, y = x_of(i), i + 100
    bs = b or None
    if via == "array":
        if kind == "data":
            return DataLoader.from_array_data((x, y), batch_size=bs, shuffle=shuffle, prefetch=prefetch)
        if kind == "inputs":
            return InputsLoader.from_array_inputs(x, batch_size=bs, shuffle=shuffle, prefetch=prefetch)
        return TargetsLoader.from_array_targets(y, batch_size=bs, shuffle=shuffle, prefetch=prefetch)
    cuts = [(x[j:j + (b or n)], y[j:j + (b or n)]) for j in range(0, n, b or n)]
    items = cuts if kind == "data" else [c[0] for c in cuts] if kind == "inputs" else [c[1] for c in cuts]
    cls = dict(data=DataLoader, inputs=InputsLoader, targets=TargetsLoader)[kind]
    if via == "iterable":
        return cls.from_iterable(items)
    if via == "callable":
        return cls.from_callable_iterable(lambda: iter(items))
    if via == "torch":
        import torch
        ds = torch.utils.data.TensorDataset(torch.from_numpy(x), torch.from_numpy(y))
        return DataLoader.from_torch_data_loader(
            torch.utils.data.DataLoader(ds, batch_size=b or n, shuffle=False))
    raise ValueError(via)


def scenarios(a):
    rnd = random.Random(a.seed)
    out = []
    for k, s in enumerate(json.load(open(a.scen)) if a.scen else []):
        out.append(dict(name="gen-%d" % k, kind=["data", "inputs", "targets"][k % 3], n=s["src"]["n"],
                        b=s["src"]["b"], shuffle=False, prefetch=k % 2 == 0,
                        via=["array", "iterable", "callable"][(k // 3) % 3],
                        ops=[[o["op"], o["k"]] for o in s["ops"]]))
    views = a.part == "src"      # C13: sources and views; C14: derivations
    if views:
        out = []
        for n in range(1, 13):
            for b in (0, 1, 2, 3, 5, 12):
                for sh in (False, True):
                    for kind in ("data", "inputs", "targets"):
                        out.append(dict(name="src-%d" % len(out), kind=kind, n=n, b=b, shuffle=sh,
                                        prefetch=len(out) % 2 == 0, via="array",
                                        ops=[["arr", 0], ["views", 0], ["view", "inputs" if b % 2 else "targets"], ["arr", 0]]))
    N = (250 if a.tier == "quick" else 2500)
    for k in range(N):
        n = rnd.randint(1, 40) if k % 4 else rnd.randint(1, 9)
        b = rnd.choice([0, 1, 2, 3, 4, 5, 7, 8, n, n + 3, rnd.randint(1, n)])
        kind = rnd.choice(["data", "data", "inputs", "targets"])
        via = rnd.choice(["array"] * 5 + ["iterable", "callable"] + (["torch"] if kind == "data" else []))
        ops = []
        for _ in range(rnd.randint(1, 4)):
            o = rnd.choice(["chop", "splitA", "splitB", "keepeven", "skipodd", "rev", "sample", "sample",
                            "view", "shift", "device", "arr"])
            if views:
                o = rnd.choice(["views", "arr", "view"])
            if o == "views":
                ops.append([o, 0])
            elif o == "sample":
                ops.append([o, rnd.randint(1, 2 * n + 2), rnd.randint(0, 5)])
            elif o in ("splitA", "splitB"):
                ops.append([o, rnd.randint(0, n + 2)])
            elif o == "chop":
                ops.append([o, rnd.randint(1, 5)])
            elif o == "view":
                ops.append([o, rnd.choice(["inputs", "targets"])])
            elif o in ("keepeven", "skipodd", "rev", "shift"):
                ops.append([o, rnd.randint(0, 3)])
            else:
                ops.append([o, 0])
        out.append(dict(name="rand-%d" % k, kind=kind, n=n, b=b, shuffle=via == "array" and rnd.random() < .5,
                        prefetch=rnd.random() < .5, via=via, ops=ops))
    for k in range(0 if views else 40 if a.tier == "quick" else 300):
        out.append(dict(name="combine-%d" % k, combine=True, seed=rnd.random()))
    for k in range(12 if views else 0):
        out.append(dict(name="hf-%d" % k, hf=True, n=rnd.randint(1, 9), b=rnd.randint(1, 4), given=k % 2 == 0))
    return out


def run(sc, a):
    ev = []
    try:
        _run(sc, a, ev)
    except Exception as e:
        raise Partial(sc, ev, e)
    return dict(sc), ev


def combine(sc, ev):
    rnd = random.Random(sc["seed"])
    m = rnd.randint(1, 4)
    parts = []
    lds = []
    base = 0
    for k in range(m):
        n = rnd.randint(1, 7)
        i = np.arange(base + 1, base + n + 1)
        base += n
        ld = InputsLoader.from_array_inputs(x_of(i), batch_size=rnd.randint(1, 4), shuffle=rnd.random() < .3)
        lds.append(ld)
        parts.append(one_pass(ld, "inputs"))
    labels = [rnd.randint(0, 3) for _ in range(m)]
    for how in ["interpose", "concatenate"]:
        d = DataLoader.from_inputs_loaders(lds, labels, how=how)
        ev.append(dict(a="combine", how=how, parts=parts, labels=labels, **look(d, "data")))
    d = DataLoader.from_inputs_loaders(lds, labels)
    ev.append(dict(a="combine", how="interpose", parts=parts, labels=labels, **look(d, "data")))
    _, exc = attempt(lambda: list(DataLoader.from_inputs_loaders(lds, labels, how="zip")))
    ev.append(dict(a="badhow", exc=exc or "none"))
    ev.append(dict(a="chain", parts=parts, batches=one_pass(ConcatenatedLoader(lds), "inputs")))
    return dict(k="combine"), ev


def hf(sc, ev):
    """The dictionary-input loader used for transformers."""
    from fortuna.data.loader.huggingface_loaders import HuggingFaceDataLoader
    n, b = sc["n"], sc["b"]
    i = np.arange(1, n + 1)
    items = [(dict(x=x_of(i[j:j + b]), z=i[j:j + b, None] * np.ones((1, 3))), i[j:j + b] + 100) for j in range(0, n, b)]
    ld = HuggingFaceDataLoader(items, num_inputs=n if sc["given"] else None)

    def one():
        return [rows((x["x"], y), "data") for x, y in ld]
    ev.append(dict(a="src", kind="data", n=n, b=b, shuffle=False, passes=[one(), one()], size=ld.size, len=len(ld)))
    sh = ld.input_shape
    ev.append(dict(a="meta", shape=[list(sh["x"]), list(sh["z"])], want_shape=[[2], [3]], nlab=int(ld.num_unique_labels)))
    il, tl = ld.to_inputs_loader(), ld.to_targets_loader()
    ev.append(dict(a="peek", which="inputs", passes=[[rows(x["x"], "inputs") for x in il] for _ in range(2)], size=il.size, len=len(il)))
    ev.append(dict(a="peek", which="targets", **look(tl, "targets")))
    ev.append(dict(a="view", which="targets", **look(tl, "targets")))
    ev.append(dict(a="arr", rows=rows(ld.to_array_targets(), "targets")))
    return dict(k="hf"), ev


def _run(sc, a, ev):
    if sc.get("hf"):
        return hf(sc, ev)
    if sc.get("combine"):
        return combine(sc, ev)
    kind, n = sc["kind"], sc["n"]
    ld = source(kind, n, sc["b"], sc["shuffle"], sc["prefetch"], sc["via"])
    ev.append(dict(a="src", kind=kind, n=n, b=sc["b"], shuffle=sc["shuffle"], prefetch=sc["prefetch"],
                   via=sc["via"], **look(ld, kind, 3)))
    if kind == "data":
        ev.append(dict(a="meta", shape=list(ld.input_shape), want_shape=[2], nlab=ld.num_unique_labels))
    for op in sc["ops"]:
        o = op[0]
        if len(ld) == 0:
            break
        if o == "chop":
            ld = ld.chop(op[1])
            ev.append(dict(a="chop", k=op[1], **look(ld, kind)))
        elif o in ("splitA", "splitB"):
            A, B = ld.split(op[1])
            ev.append(dict(a="split", k=op[1], pick=o[-1], A=look(A, kind), B=look(B, kind)))
            ld = A if o == "splitA" else B
        elif o in ("keepeven", "skipodd", "rev", "shift"):
            if o == "shift" and any(e["a"] == "map" and e["t"] == "shift" for e in ev):
                continue
            ld = transform(ld, kind, o, op[1])
            ev.append(dict(a="map", t=o, k=op[1], **look(ld, kind)))
        elif o == "view" and kind == "data":
            ld = ld.to_inputs_loader() if op[1] == "inputs" else ld.to_targets_loader()
            if kind == "data" and sc["n"] % 2 == 0:
                pass
            kind = op[1]
            ev.append(dict(a="view", which=kind, **look(ld, kind)))
        elif o == "views" and kind == "data":
            for nm, v in (("inputs", ld.to_inputs_loader()), ("targets", ld.to_targets_loader()),
                          ("inputs", InputsLoader.from_data_loader(ld)), ("targets", TargetsLoader.from_data_loader(ld))):
                ev.append(dict(a="peek", which=nm, **look(v, nm)))
            ev.append(dict(a="inshape", shape=list(ld.to_inputs_loader().input_shape)))
        elif o == "arr":
            if kind == "data":
                x, y = ld.to_array_data()
                ev.append(dict(a="arr", rows=rows((x, y), "data")))
                ev.append(dict(a="arr", rows=[[p, q] for p, q in zip(xid(ld.to_array_inputs()),
                                                                    ld.to_array_targets().tolist())]))
            elif kind == "inputs":
                ev.append(dict(a="arr", rows=rows(ld.to_array_inputs(), kind)))
            else:
                ev.append(dict(a="arr", rows=rows(ld.to_array_targets(), kind)))
        elif o == "sample":
            s = ld.sample(op[2], op[1])
            lk = look(s, kind)
            again = one_pass(ld.sample(op[2], op[1]), kind)
            others = [one_pass(ld.sample(op[2] + 1 + j, op[1]), kind) for j in range(3)]
            w = lk["passes"][0]
            if kind == "data":
                iv = one_pass(ld.to_inputs_loader().sample(op[2], op[1]), "inputs")
                tv = one_pass(ld.to_targets_loader().sample(op[2], op[1]), "targets")
            else:
                iv = [[[r[0], 0] for r in b] for b in w]
                tv = [[[0, r[1]] for r in b] for b in w]
            ev.append(dict(a="sample", k=op[1], seed=op[2], again=again, inputs=iv, targets=tv,
                           others=others, **lk))
            ld = s
        elif o == "device":
            if kind == "data":
                cv = DeviceDimensionAugmentedLoader(ld)
            else:
                cv = DeviceDimensionAugmentedLoader(ld)

            def go():
                bsx, lead = [], []
                for b in cv:
                    if kind == "data":
                        x, y = b
                        lead.append(list(x.shape[:2]))
                        assert x.shape[:2] == y.shape[:2]
                        bsx.append(rows((np.asarray(x), np.asarray(y)), "data"))
                    else:
                        lead.append(list(b.shape[:2]))
                        bsx.append(rows(np.asarray(b), kind))
                return bsx, lead
            r, exc = attempt(go)
            ev.append(dict(a="device", dev=jax.local_device_count(), exc=exc or "none",
                           batches=r[0] if r else [], lead=r[1] if r else []))


main(scenarios, run)
