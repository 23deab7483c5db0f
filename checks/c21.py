"""C21: density, distribution function and quantiles are one law."""
from common import *


def bad_pars(f):
    """parameter vectors outside the documented ranges"""
    import math

    p = 2 * math.pi
    return {
        "circularuniform": [], "triangular": [[-.01], [.41]], "cardioid": [[1, -.01], [1, .51], [-.1, .2], [p + .1, .2]], "cartwright": [[1, 0], [1, -1], [-.1, 1]],
        "wrapnorm": [[1, 1.0], [1, -.1], [7, .5]], "wrapcauchy": [[1, 1.0], [1, -.1], [7, .5]], "vonmises": [[1, -.5], [7, 1], [-1, 1]],
        "vonmises_flattopped": [[1, -1, 0], [1, 1, 1.1], [1, 1, -1.1], [7, 1, 0]], "jonespewsey": [[1, -1, 0], [7, 1, 0]],
        "jonespewsey_sineskewed": [[1, -1, 0, 0], [1, 1, 0, 1.1], [7, 1, 0, 0]], "jonespewsey_asym": [[1, -1, 0, 0], [1, 1, 0, -.1], [1, 1, 0, 1.0]],
        "inverse_batschelet": [[1, -1, 0, 0], [1, 1, 1.1, 0], [1, 1, 0, -1.1]], "wrapstable": [[1, 2.1, 0, 1], [1, 0, 0, 1], [1, 1, 1.0, 1], [1, 1, 0, 0]],
        "katojones": [[1, 1.0, 0, 0], [1, .2, 1.0, 0], [1, .5, .9, 3], [7, .2, .1, 0]],
    }[f]


def refused(fn):
    import numpy as np

    v, e = vlib.call(fn)
    if e is not None:
        return e in ("ValueError", "TypeError")
    return bool(np.all(np.isnan(np.asarray(v, float))))


def replay(h):
    import warnings
    import numpy as np

    warnings.simplefilter("ignore")
    out = []
    for st in h:
        d, p = law_args(st["law"])
        x = rads(st["xs"])
        q = np.array(st["qs"], float) / 1e6
        ob = Obs()
        for m in ("pdf", "logpdf", "cdf", "sf", "logcdf", "logsf"):
            ob.get(m, "FV", lambda: getattr(d, m)(x, *p))
        ob.get("ends", "FV", lambda: d.cdf(np.array([0.0, 2 * np.pi]), *p))
        ob.get("ppf", "AV", lambda: d.ppf(q, *p))
        ob.get("isf", "AV", lambda: d.isf(q, *p))
        ob.get("out", "B", lambda: np.all(np.isnan(np.asarray(d.ppf(np.array([-.1, 1.1]), *p), float))))
        ob.get("nan", "B", lambda: np.isnan(d.pdf(np.nan, *p)) and np.isnan(d.cdf(np.nan, *p)) and np.isnan(d.ppf(np.nan, *p)))
        tol = 3e-5 if st["law"]["f"] in ("vonmises_flattopped", "inverse_batschelet") else 1e-6
        ob.get("trip", "B", lambda: all(abs((1.0 if v == 1 else 0.0 if v == 0 else float(d.cdf(float(d.ppf(v, *p)), *p))) - v) < tol for v in q))
        b = bad_pars(st["law"]["f"])
        k = int(rng_of_law(st).integers(0, max(1, len(b))))
        ob.get("bad", "I", lambda: sum(0 if refused(lambda: g(.5, *c)) else 1 for c in b[k:k + 1] for g in (d.pdf, d.cdf, d.ppf)))
        out.append(ob.rec({"op": st["op"], "law": st["law"], "xs": st["xs"], "qs": st["qs"], "key": ""}))
    return out


def run(ctx):
    ctx.mc("MC_Dist", consts=None if ctx.quick else {"Ks": "{50, 300, 1000, 3000, 8000, 20000}", "Rs": "{0, 20, 100, 250, 400, 700, 900, 970}"}, workers=2 if ctx.quick else 6)
    hs = laws(ctx, 1400 if ctx.quick else 6000)
    ctx.validate("Trace_Law", ctx.record(replay, hs))


if __name__ == "__main__":
    vlib.main("C21", run)
