"""C17: regression of a direction on numbers."""
from common import *

OPS17 = {"RotB", "TurnB", "RefB", "SwapP", "RevP", "InsertP", "RemoveP", "ScaleX"}


def replay(h):
    import contextlib
    import io
    import warnings
    import numpy as np
    import pandas as pd
    from pycircstat2.regression import CLRegression

    warnings.simplefilter("ignore")
    out = []
    n0 = len(h[0]["data"]["a"])
    mt = ["mean", "kappa", "mixed"][n0 % 3]
    p = 1 + (n0 // 3) % 2
    gentle = int(h[0]["data"]["a"][0] % 3 == 0)
    for st in h:
        d = st["data"]
        th = rads(d["b"] if not gentle else [40000000 + v * 20000 + b % 20000001 - 10000000 for v, b in zip(d["x"], d["b"])])
        n = th.size
        X = np.array(d["x"], float)[:, None] / 1000
        if p == 2:
            X = np.column_stack([X, (np.array(d["a"]) % T) / T])
        ob = Obs()

        def fit(**k):
            a = dict(theta=th, X=X, model_type=mt, tol=1e-12, max_iter=300)
            a.update(k)
            return CLRegression(**a)

        def flat(m):
            r = m.result
            return np.concatenate([np.ravel(r["beta"]), [r["alpha"]], np.ravel(r["gamma"]), [r["mu"]], np.ravel(r["kappa"]), [r["log_likelihood"]]])
        try:
            m, m2 = fit(), fit(max_iter=301)
            ob.o["degen"] = int(not np.isfinite(flat(m)).all() or np.max(m.result["kappa"]) >= 600)
            conv = int(np.isfinite(flat(m)).all() and (flat(m) == flat(m2)).all() and 1e-3 < np.max(m.result["kappa"]) < 600 and np.abs(m.result["beta"]).max() < 1e3)
        except ValueError as e:  # documented: the concentration update has no step
            if "zero derivative" not in str(e):
                raise
            conv = ob.o["degen"] = 0
        ob.o["conv"] = conv
        fast = int(conv and np.allclose(flat(m), flat(fit(max_iter=40)), rtol=1e-6, atol=1e-6))  # no wandering between optima
        if conv:
            r = m.result
            ob.tup(["beta", "alpha", "gamma", "mu", "kap", "ll", "sem", "sek"], ["FV", "F", "FV", "A", "FV", "F", "F", "FV"], lambda: [
                r["beta"], r["alpha"], r["gamma"], r["mu"], np.ravel(r["kappa"]), r["log_likelihood"], r["se_mu"], np.ravel(r["se_kappa"])])
            if mt != "kappa":
                ob.get("seb", "FV", lambda: r["se_beta"])
            if mt != "mean":
                ob.get("sea", "F", lambda: r["se_alpha"])
                ob.get("seg", "FV", lambda: r["se_gamma"])
            ob.get("aic", "F", m.AIC)
            ob.get("bic", "F", m.BIC)
            ob.get("pred", "AV", lambda: m.predict(X[:, 0] if p == 1 and n % 2 else X))
            ob.get("stay", "F", lambda: fit(beta0=r["beta"], alpha0=r["alpha"], gamma0=r["gamma"], max_iter=3).result["log_likelihood"])

            def form():
                df = pd.DataFrame({"t": th, "u": X[:, 0], "v": X[:, -1]})
                g = CLRegression("t ~ u + v" if p == 2 else "t ~ u", df, model_type=mt, tol=1e-12, max_iter=300)
                return int(np.allclose(flat(g), flat(m), rtol=2e-3, atol=2e-3) and list(g.feature_names) == ["u", "v"][:p])
            ob.get("form", "I", form)
        one = np.ones((3, 1))
        nan = X.copy()
        nan[0, 0] = np.nan
        tn = th.copy()
        tn[-1] = np.inf
        bad = [lambda: fit(X=nan), lambda: fit(theta=tn), lambda: fit(X=X[1:]), lambda: fit(model_type="mode"), lambda: fit(beta0=np.zeros(p + 1)), lambda: fit(gamma0=np.zeros(p + 1)),
               lambda: fit(beta0=[np.nan] * p), lambda: CLRegression(theta=th), lambda: CLRegression(theta=np.array([]), X=one), lambda: fit(max_iter=2).predict(np.ones((2, p + 1))), lambda: fit(max_iter=2).predict(np.full((2, p), np.nan)),
               lambda: CLRegression("t ~ u", pd.DataFrame({"t": th, "u": nan[:, 0]})), lambda: CLRegression("t ~ u", pd.DataFrame({"t": np.where(np.isinf(tn), np.nan, tn), "u": X[:, 0]}))]
        ob.get("bad", "I", lambda: sum(0 if raises(g) else 1 for g in bad))
        if ob.o["bad"]:
            ob.o["which"] = [i for i, g in enumerate(bad) if not raises(g)]

        def summ():
            if not conv:
                return 1
            s = io.StringIO()
            with contextlib.redirect_stdout(s):
                m.summary()
            return int(f"{r['mu']:.5f}" in s.getvalue() and f"{r['log_likelihood']:.5f}" in s.getvalue())
        ob.get("summ", "I", summ)
        out.append(ob.rec({"op": st["op"], "data": d, "mt": mt, "p": p, "fast": fast, "gentle": gentle, "key": ""}))
    return out


def run(ctx):
    ctx.mc("MC_ClReg", consts=None if ctx.quick else {"Lattice": "{0, 40000000, 85000000, 130000000, 200000000, 260000000}"})
    q = ctx.quick
    hs = pairs(ctx, 500 if q else 3000, set(range(6, 20)) | {25}, ops=OPS17)
    rec = ctx.record(replay, hs)
    fits = [(r["mt"], r["o"]["conv"]) for b in rec for r in b if "conv" in r["o"]]
    mts = ["mean", "kappa", "mixed"]
    ctx.validate("Trace_ClReg", rec + [[{"op": {"t": "Tally"}, "all": [sum(1 for f in fits if f[0] == m) for m in mts], "done": [sum(c for k, c in fits if k == m) for m in mts]}]])


if __name__ == "__main__":
    vlib.main("C17", run)
