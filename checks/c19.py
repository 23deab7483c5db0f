"""C19: k-means on the circle."""
from common import *

METRICS = ["center", "geodesic", "angularseparation", "chord"]


def replay(h):
    import warnings
    import numpy as np
    from pycircstat2.clustering import CircKMeans

    warnings.simplefilter("ignore")
    out = []
    s0 = hash_ints(h[0]["data"]["a"])
    metric = METRICS[s0 % 4]
    k = 1 + s0 // 4 % 5
    seed = s0 % 1000
    for st in h:
        d = st["data"]
        deg = np.array(d["a"], float) / 1e6
        n = deg.size
        new = [int(v) for v in rng_of(st).integers(0, T, 4)]
        ob = Obs()
        kw = dict(n_clusters=k, metric=metric, random_seed=seed)
        m = CircKMeans(**kw).fit(deg)
        ob.o["new"] = new
        ob.tup(["lab", "cen", "inertia"], ["IV", "AV", "F"], lambda: [m.labels_, m.centers_, m.inertia_])
        ob.get("pred", "IV", lambda: m.predict(np.array(new) / 1e6))
        ob.o["steps"] = []
        for it in range(7):
            v = CircKMeans(**kw, max_iter=it).fit(deg)
            ob.o["steps"].append({"lab": IV(v.labels_), "cen": AV(v.centers_)})
        np.random.seed(s0 % 100)
        np.random.random(3)
        m2 = CircKMeans(**kw)
        m2.fit(list(deg)[::-1])
        m2.fit(list(deg))
        ob.o["rep"] = int(np.array_equal(m2.labels_, m.labels_) and np.array_equal(m2.centers_, m.centers_, equal_nan=True) and m2.inertia_ == m.inertia_ and np.array_equal(m.predict(deg), CircKMeans(**kw).fit(deg).predict(deg)))
        if n >= k:
            m3 = CircKMeans(**kw, unit="radian").fit(rads(d["a"]))
            m4 = CircKMeans(**kw, full_cycle=24).fit(deg / 15)
            ob.o["unit"] = int(all(not np.array_equal(v.labels_, m.labels_) or np.allclose(np.exp(1j * v.centers_), np.exp(1j * m.centers_), atol=1e-6) for v in (m3, m4)))
            ob.o["same"] = int(np.array_equal(m3.labels_, m.labels_) and np.array_equal(m4.labels_, m.labels_))
        else:
            ob.o["unit"] = ob.o["same"] = 1
        bad = [lambda: CircKMeans(2).predict([1.0])]
        ob.get("bad", "I", lambda: sum(0 if raises(g) else 1 for g in bad))
        out.append(ob.rec({"op": st["op"], "data": d, "k": k, "metric": metric, "key": ""}))
    return out


def run(ctx):
    ctx.mc("MC_Lloyd", consts=None if ctx.quick else {"K": "3", "N": "6"})
    q = ctx.quick
    hs = samples(ctx, 600 if q else 3000, set(range(1, 22)), ops={"Rotate", "Reflect", "Turn", "Wrap", "Swap", "Insert", "Remove"})
    ctx.validate("Trace_KMeans", ctx.record(replay, hs))


if __name__ == "__main__":
    vlib.main("C19", run)
