"""C03: circular medians."""
from common import *


def aslist(v):
    import numpy as np

    return [vlib.A(x) for x in np.atleast_1d(v)]


def replay(h):
    import numpy as np
    import pycircstat2.descriptive as d

    out = []
    for st in h:
        a, w = rads(st["data"]["a"]), np.array(st["data"]["w"])
        rng = rng_of(st)
        ob = Obs()
        base = {"op": st["op"], "data": st["data"], "kind": st["kind"], "key": "", "k": 0, "off": 0}
        if st["kind"] == "grouped":
            m = len(a)
            k = int(rng.integers(1, m))
            off = int(rng.integers(0, 50000000))
            base.update(k=k, off=off)
            if len(set(st["data"]["w"])) > 1:
                ob.get("med", "A", lambda: d.circ_median(a, w))
                ob.get("medrot", "A", lambda: d.circ_median(a, np.roll(w, k)))
                ob.get("medx3", "A", lambda: d.circ_median(a, w * 3))
                ob.get("medoff", "A", lambda: d.circ_median(a + rad(off), w))
            out.append(ob.rec(base))
            continue
        ob.get("med", "A", lambda: d.circ_median(a))
        ob.get("cand", "J", lambda: aslist(d.circ_median(a, return_average=False)))
        ob.get("medu", "A", lambda: d.circ_median(a, average_method="unique"))
        ob.get("med1", "B", lambda: np.array_equal(d.circ_median(a, w=np.ones(len(a))), d.circ_median(a, method="deviation", average_method="all"), equal_nan=True))
        ob.get("medc", "A", lambda: d.circ_median(a, method="count"))
        ob.get("candc", "J", lambda: aslist(d.circ_median(a, method="count", return_average=False)))
        ob.get("medn", "B", lambda: bool(np.isnan(d.circ_median(a, method="none"))))
        ob.get("bad", "B", lambda: raises(lambda: d.circ_median(a, method="middle")) and raises(lambda: d.circ_median(a, average_method="mode")))
        out.append(ob.rec(base))
    return out




def run(ctx):
    ctx.mc("MC_Median", consts={} if ctx.quick else {"MaxN": "5", "Bins": "{5, 6, 7}"})
    q = ctx.quick
    hs = samples(ctx, 700 if q else 6000, {1, 2, 3, 4, 5, 6, 7, 8, 11, 15, 16, 20}, depth=4, ops=OPS - {"Scale", "Split", "Expand"})
    hs += samples(ctx, 200 if q else 2000, {3, 4, 5, 6, 8, 9, 12}, kinds={"deg5", "deg30c", "fine", "deg"}, depth=3, ops={"Turn", "Insert", "Rotate", "Reflect"}, salt=2)
    hs += samples(ctx, 40 if q else 500, {33, 60}, depth=2, ops={"Rotate", "Reflect"}, salt=3)
    hs += samples(ctx, 500 if q else 6000, {1}, kinds={"grouped"}, depth=1, ops={"Scale"}, salt=4)
    bs = ctx.record(replay, hs)
    ctx.validate("Trace_Median", bs)


if __name__ == "__main__":
    vlib.main("C03", run)
