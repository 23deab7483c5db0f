"""C06: order statistics."""
from common import *

LEV = [500, 750, 800, 900, 950, 980, 990]


def replay(h):
    import numpy as np
    import pycircstat2.descriptive as d

    out = []
    for st in h:
        a = rads(st["data"]["a"])
        rng = rng_of(st)
        cis = [int(x) for x in rng.choice(LEV, 3, replace=False)]
        ci = int(rng.choice([800, 900, 950, 990]))
        probs = [int(x) for x in rng.integers(0, 1001, 4)] + [int(rng.choice([0, 250, 500, 750, 1000]))]
        pr = [p / 1000 for p in probs]
        ob = Obs()
        ob.get("range", "F", lambda: d.circ_range(a))
        ob.get("hdi", "J", lambda: [AV(d.compute_hdi(a, ci=c / 1000)) for c in cis])
        ob.get("hdib", "B", lambda: all(raises(lambda c=c: d.compute_hdi(a, ci=c)) for c in (0, 1, 1.5, -0.1)) and raises(lambda: d.compute_hdi(a[:0])))
        ob.get("med", "A", lambda: d.circ_median(a))
        ob.get("qu", "AV", lambda: d.circ_quantile(a, np.array(pr)))
        ob.get("q1", "AV", lambda: d.circ_quantile(a, pr[0]))
        ob.get("qm", "AV", lambda: d.circ_quantile(list(a), pr, type=5))
        ob.get("qdef", "AV", lambda: d.circ_quantile(a))
        v = ob.tup(["mlo", "mhi", "mci"], ["A", "A", "F"], lambda: d.circ_median_ci(alpha=a, ci=ci / 1000))
        ob.get("same", "B", lambda: np.allclose(v, d.circ_median_ci(median=d.circ_median(a), alpha=list(a), ci=ci / 1000), rtol=0, atol=0, equal_nan=True))
        ob.get("bad", "B", lambda: raises(lambda: d.circ_median_ci()) and raises(lambda: d.circ_median_ci(median=1.0)))
        out.append(ob.rec({"op": st["op"], "data": st["data"], "cis": cis, "ci": ci, "probs": probs, "key": ""}))
    return out


def run(ctx):
    ctx.mc("MC_Interval", consts=None if ctx.quick else {"MaxN": "5"})
    q = ctx.quick
    ops = OPS - {"Scale", "Split", "Expand"}
    hs = samples(ctx, 700 if q else 8000, set(range(1, 17)), depth=4, ops=ops)
    hs += samples(ctx, 500 if q else 5000, {16, 17, 18, 21, 25, 30, 41, 60}, depth=3, ops=ops, salt=2)
    ctx.validate("Trace_Order", ctx.record(replay, hs))


if __name__ == "__main__":
    vlib.main("C06", run)
