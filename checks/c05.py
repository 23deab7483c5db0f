"""C05: confidence intervals of the mean direction."""
from common import *

LEV = [500, 800, 900, 950, 980, 990]


def iv(fn):
    """<<lower, upper>>; <<>> when refused with a ValueError; other exceptions pass"""
    v, e = vlib.call(fn)
    if e == "ValueError":
        return []
    if e is not None:
        raise RuntimeError(e)
    lo, hi = v
    return [A(lo), A(hi)]


def seeded(seed, fn):
    import numpy as np

    st = np.random.get_state()
    try:
        np.random.seed(seed)
        return fn()
    finally:
        np.random.set_state(st)


def replay(h):
    import numpy as np
    import pycircstat2.descriptive as d

    out = []
    for k, st in enumerate(h):
        a, w = rads(st["data"]["a"]), np.array(st["data"]["w"])
        n = int(w.sum())
        ones = all(v == 1 for v in st["data"]["w"])
        ws = None if ones else w
        rng = rng_of(st)
        cis = sorted(int(x) for x in rng.choice(LEV, 3, replace=False))
        ob = Obs()
        f = d.circ_mean_ci
        ex = np.repeat(a, w)
        ap = lambda cs, **kw: [iv(lambda: f(ci=c / 1000, method="approximate", **kw)) for c in cs]
        di = lambda cs, **kw: [iv(lambda: f(ci=c / 1000, method="dispersion", **kw)) for c in cs]
        m, r = d.circ_mean_and_r(a, w)
        ob.get("ap", "J", lambda: ap(cis, alpha=a, w=ws))
        ob.get("aps", "J", lambda: ap(cis, mean=m, r=r, n=n))
        ob.get("apx", "J", lambda: ap(cis, alpha=ex))
        ob.get("di", "J", lambda: di(cis, alpha=a, w=ws))
        ob.get("dim", "J", lambda: di(cis, alpha=a, w=ws, mean=d.circ_mean(a, w)))
        ob.get("apf", "J", lambda: ap([900, 950], alpha=a, w=ws))
        ob.get("dif", "J", lambda: di([900, 950], alpha=a, w=ws))
        ob.get("bad", "B", lambda: raises(lambda: f(alpha=a, w=ws, method="exact")) and raises(lambda: f(mean=0.3, r=0.6)) and raises(lambda: f(method="dispersion"))
               and raises(lambda: f(mean=1.0)) and raises(lambda: f(alpha=a, method="bootstrap", B=0)))
        boot = 1 if k == 0 and 3 <= n <= 60 else 0
        turn = int(rng.integers(-T, T))
        if boot:
            seed = int(rng.integers(0, 2**31))
            bs = lambda x, **kw: iv(lambda: seeded(seed, lambda: f(alpha=x, method="bootstrap", ci=0.8, B=200, **kw)))
            wr = rads([x % T for x in st["data"]["a"]])
            ob.get("bs", "J", lambda: bs(ex))
            ob.get("bs2", "J", lambda: bs(list(ex)))
            ob.get("bsw", "J", lambda: bs(a, w=w))
            ob.get("bsr", "J", lambda: bs(ex + rad(turn)))
            ob.get("bst", "J", lambda: bs(np.repeat(wr, w)))
        out.append(ob.rec({"op": st["op"], "data": st["data"], "kind": st["kind"], "cis": cis, "boot": boot, "turn": turn, "key": ""}))
    return out


def run(ctx):
    ctx.mc("MC_Interval", consts=None if ctx.quick else {"MaxN": "5"})
    q = ctx.quick
    ops = OPS - {"Scale"}
    hs = samples(ctx, 500 if q else 6000, {3, 7, 8, 9, 12, 15, 20, 24, 25, 30, 50, 80}, wk=(0, 0, 1), depth=4, ops=ops)
    hs += samples(ctx, 120 if q else 2000, {8, 10, 12, 25, 40}, kinds={"any", "wide", "half", "raw", "seam"}, wk=(0, 1, 2), depth=3, ops=ops | {"Scale"}, salt=2)
    bs = ctx.record(replay, hs)
    ctx.validate("Trace_MeanCI", bs)


if __name__ == "__main__":
    vlib.main("C05", run)
