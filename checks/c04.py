"""C04: distances and mean deviation."""
from common import *

MET = ["center", "geodesic", "angularseparation", "chord"]


def replay(h):
    import numpy as np
    import pycircstat2.descriptive as d

    out = []
    for st in h:
        ai = st["data"]["a"]
        a = rads(ai)
        rng = rng_of(st)
        m = int(rng.integers(1, 7))
        yi = [int(v) for v in rng.integers(-2 * T, 2 * T, m)]
        if rng.random() < 0.5:
            yi[0] = ai[0] + T // 2 if ai[0] < 10**9 else ai[0] - T // 2
        if m > 1 and rng.random() < 0.5:
            yi[1] = ai[-1]
        y = rads(yi)
        n = len(a)
        perm = [((i + 1) * 3) % n for i in range(n)]
        ob = Obs()
        ka, ky = a.copy(), y.copy()
        ob.get("one", "J", lambda: [FV(d.circ_dist(a, y[0], metric=k)) for k in MET])
        ob.get("elt", "J", lambda: [FV(d.circ_dist(a, a[perm], metric=k)) for k in MET])
        ob.get("pair", "J", lambda: [[FV(row) for row in d.circ_pairdist(a, y, metric=k)] for k in MET])
        ob.get("self", "J", lambda: [FV(np.diag(d.circ_pairdist(a, metric=k))) if i % 2 else FV(d.circ_dist(a, metric=k)) for i, k in enumerate(MET)])
        ob.get("sum", "J", lambda: [F(d.circ_pairdist(a, y, metric=k, return_sum=True)) for k in MET])
        ob.get("bad", "B", lambda: raises(lambda: d.circ_dist(a, y[0], metric="manhattan")) and raises(lambda: d.circ_dist(np.zeros(3), np.zeros(4)))
               and raises(lambda: d.circ_mean_deviation_chunked(a, y, 0)))
        ob.get("dev", "FV", lambda: d.circ_mean_deviation(a, y))
        ob.get("devc", "J", lambda: [FV(d.circ_mean_deviation_chunked(a, y, c)) for c in (1, 2, 3, 1000)] + [FV(d.circ_mean_deviation_chuncked(list(a), list(y), 4))])
        ob.get("dev1", "F", lambda: d.circ_mean_deviation(list(a), float(y[0])))
        ob.get("dec", "B", lambda: np.allclose(np.round(d.circ_mean_deviation(a, y), 5), d.circ_mean_deviation(a, y), rtol=0, atol=1e-12))
        ob.get("keep", "B", lambda: np.array_equal(a, ka) and np.array_equal(y, ky))
        out.append(ob.rec({"op": st["op"], "data": st["data"], "y": yi, "key": ""}))
    return out


def run(ctx):
    ctx.mc("MC_Angle")
    q = ctx.quick
    hs = samples(ctx, 500 if q else 6000, {1, 2, 3, 5, 8, 13, 20}, depth=4, ops=OPS - {"Scale", "Split", "Expand"})
    ctx.validate("Trace_Distance", ctx.record(replay, hs))


if __name__ == "__main__":
    vlib.main("C04", run)
