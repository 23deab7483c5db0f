"""C16: circular-circular regression."""
from common import *


def replay(h):
    import numpy as np
    import pandas as pd
    from pycircstat2.regression import CCRegression

    out = []
    ord_ = 1 + len(h[0]["data"]["a"]) % 3
    for st in h:
        d = st["data"]
        a, b = rads(d["a"]), rads(d["b"])
        x = rads([150000 * (v % 2400) for v in d["x"]])
        n = a.size
        level = [0.05, 0.3][d["x"][0] % 2]
        ob = Obs()

        def fit():
            r = CCRegression(theta=b, x=a, order=ord_, level=level).result
            m = r["message"]
            msg = 1 if " are significant" in m else 0 if "not significant" in m else 2
            return r["coefficients"]["cos"], r["coefficients"]["sin"], r["fitted"], r["residuals"], r["rho"], r["p_values"], msg, int(r["cos_labels"] == [(0, k) for k in range(1, ord_ + 1)] == r["sin_labels"])
        ob.tup(["cc", "cs", "fit", "res", "rho", "p", "msg", "lab"], ["FV", "FV", "AV", "AV", "F", "FV", "I", "I"], fit)
        ob.get("rhon", "F", lambda: CCRegression(theta=list(b), x=list(a), order=ord_ + 1).result["rho"])

        def two():
            r = CCRegression(theta=b, x=np.column_stack([a, x])).result
            s = CCRegression(theta=b, x=np.column_stack([x, a])).result
            lab = [(0, 1), (1, 1)]
            return r["coefficients"]["cos"], r["coefficients"]["sin"], r["p_values"], s["p_values"], r["rho"], int(r["cos_labels"] == lab == r["sin_labels"])

        ob.tup(["c2", "s2", "p2", "p2x", "rho2", "lab2"], ["FV", "FV", "FV", "FV", "F", "I"], two)

        def form():
            df = pd.DataFrame({"r": b, "q": a})
            u = CCRegression("r ~ q", df, order=ord_).result
            return int(np.allclose([F_(c) for c in u["coefficients"]["cos"]], [F_(c) for c in CCRegression(theta=b, x=a, order=ord_).result["coefficients"]["cos"]]))

        def F_(v):
            return float(v)
        ob.get("form", "I", form)
        bad = [lambda: CCRegression(theta=b), lambda: CCRegression(theta=b, x=a, order=0), lambda: CCRegression(theta=b, x=a, level=0.0), lambda: CCRegression(theta=b, x=a, level=1.0),
               lambda: CCRegression(theta=np.array([1.0, np.nan]), x=np.array([1.0, 2.0])), lambda: CCRegression(theta=1.0, x=a), lambda: CCRegression(theta=np.array([1.0, 2.0, 0.5]), x=np.array([1.0, 2.0]))]
        ob.get("bad", "I", lambda: sum(0 if raises(g) else 1 for g in bad))
        if ob.o["bad"]:
            ob.o["which"] = [i for i, g in enumerate(bad) if not raises(g)]
        out.append(ob.rec({"op": st["op"], "data": d, "ord": ord_, "level": F(level), "key": ""}))
    return out


def run(ctx):
    ctx.mc("MC_CcReg", consts=None if ctx.quick else {"Lattice": "{0, 35000000, 110000000, 190000000, 250000000}"})
    q = ctx.quick
    hs = pairs(ctx, 300 if q else 3000, set(range(3, 20)) | {25})
    ctx.validate("Trace_CcReg", ctx.record(replay, hs))


if __name__ == "__main__":
    vlib.main("C16", run)
