"""C18: agglomerative clustering."""
from common import *

OPS18 = {"Rotate", "Reflect", "Turn", "Wrap", "Swap", "Reverse", "Insert", "Remove"}
METRICS = ["center", "geodesic", "angularseparation", "chord"]


def replay(h):
    import warnings
    import numpy as np
    from pycircstat2.clustering import CircHAC

    warnings.simplefilter("ignore")
    out = []
    s0 = hash_ints(h[0]["data"]["a"])
    metric = METRICS[s0 % 4]
    k = 1 + s0 // 4 % 5
    ninit = [0, 0, 0, k + 2, k + 1, 30][s0 // 20 % 6]
    for st in h:
        d = st["data"]
        deg = np.array(d["a"], float) / 1e6
        n = deg.size
        new = [int(v) for v in rng_of(st).integers(0, T, 4)]
        ob = Obs()
        kw = dict(n_clusters=k, n_init_clusters=ninit or None, metric=metric, random_seed=s0 % 1000)
        m = CircHAC(**kw).fit(deg)
        ob.o["new"] = new
        ob.tup(["lab", "cen", "r", "sil"], ["IV", "AV", "FV", "F"], lambda: [m.labels_, m.centers_, m.r_, m.silhouette_score() if len(m.centers_) > 1 else 0.0])
        mg = np.asarray(m.merges_)
        ob.o["m"] = {"x": [INT(v) for v in mg[:, 0]], "y": [INT(v) for v in mg[:, 1]], "d": [F(v) for v in mg[:, 2]], "n": [INT(v) for v in mg[:, 3]]}
        ob.get("pred", "IV", lambda: m.predict(np.array(new) / 1e6))
        if ninit:
            ob.get("init", "IV", lambda: CircHAC(**{**kw, "n_clusters": ninit}).fit(deg).labels_)
        m2 = CircHAC(**{**kw, "metric": metric.upper()}).fit(list(deg))
        ob.o["rep"] = int(list(m2.labels_) == list(m.labels_) and np.array_equal(m2.merges_, m.merges_))
        m3 = CircHAC(**{**kw, "unit": "radian"}).fit(rads(d["a"]))
        m4 = CircHAC(**{**kw, "full_cycle": 24}).fit(deg / 15)
        same = not ninit or all(list(CircHAC(**{**kw, "n_clusters": ninit, **v}).fit(x).labels_) == ob.o.get("init") for v, x in (({"unit": "radian"}, rads(d["a"])), ({"full_cycle": 24}, deg / 15)))
        ob.o["unit"] = int(not same or all(np.allclose(np.exp(1j * v.centers_), np.exp(1j * m.centers_), atol=1e-6, equal_nan=True) for v in (m3, m4)) or not clear(mg, m3.merges_, m4.merges_))
        bad = [lambda: CircHAC(0), lambda: CircHAC(-1), lambda: CircHAC(2, n_init_clusters=0), lambda: CircHAC(2, metric="l1"), lambda: CircHAC(2, unit="hour"), lambda: CircHAC(2).fit([]), lambda: CircHAC(2).predict([1.0])]
        ob.get("bad", "I", lambda: sum(0 if raises(g) else 1 for g in bad))
        out.append(ob.rec({"op": st["op"], "data": d, "k": k, "metric": metric, "ninit": ninit, "key": ""}))
    return out


def clear(*ms):
    """Were the merges made in one order in every unit?"""
    return all(m.shape == ms[0].shape and (m[:, :2] == ms[0][:, :2]).all() for m in ms)


def run(ctx):
    ctx.mc("MC_Cluster", consts=None if ctx.quick else {"N": "6", "Lattice": "{0, 30000000, 100000000, 180000000, 210000000, 300000000}"})
    q = ctx.quick
    hs = samples(ctx, 400 if q else 2500, set(range(1, 15)), ops=OPS18)
    ctx.validate("Trace_Cluster", ctx.record(replay, hs))


if __name__ == "__main__":
    vlib.main("C18", run)
