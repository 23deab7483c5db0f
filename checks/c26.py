"""C26: analyses leave their inputs alone and repeat themselves."""
from common import *


def registry():
    """name -> function of the caller's arguments (x, y, z, w): circular samples, linear sample, frequencies."""
    import numpy as np
    import pycircstat2.descriptive as D
    import pycircstat2.hypothesis as H
    import pycircstat2.correlation as C
    import pycircstat2.clustering as K
    import pycircstat2.regression as R
    import pycircstat2.distributions as L
    from pycircstat2 import Circular, utils as U
    from pycircstat2.base import Axial

    def vals(o):
        """Numbers of a result, whatever its shape."""
        if o is None or isinstance(o, str):
            return []
        if isinstance(o, dict):
            return [v for k in sorted(o, key=str) for v in vals(o[k])]
        if hasattr(o, "_asdict"):
            return vals(o._asdict())
        if hasattr(o, "__dataclass_fields__"):
            return vals({k: getattr(o, k) for k in o.__dataclass_fields__})
        if hasattr(o, "to_numpy"):
            return vals(o.to_numpy())
        if isinstance(o, (list, tuple)):
            return [v for e in o for v in vals(e)]
        try:
            a = np.asarray(o)
            if np.iscomplexobj(a):
                a = np.stack([a.real, a.imag])
            return [float(v) for v in a.astype(float).ravel()]
        except (TypeError, ValueError):
            return []

    f = {}
    one = lambda g: lambda a: g(a["x"])
    for n in ("circ_r", "circ_mean", "circ_mean_and_r", "circ_moment", "circ_dispersion", "circ_skewness", "circ_kurtosis", "circ_var", "angular_var", "circ_std", "angular_std",
              "circ_median", "circ_range", "circ_quantile", "circ_pairdist"):
        if hasattr(D, n):
            f[n] = one(getattr(D, n))
    for n in ("circ_r", "circ_mean", "circ_mean_and_r", "circ_moment", "circ_dispersion", "circ_skewness", "circ_kurtosis", "compute_C_and_S"):
        f[n + ":w"] = (lambda g: lambda a: g(a["x"], a["w"]))(getattr(D, n))
    f["circ_median:count"] = lambda a: D.circ_median(a["x"], method="count")
    f["circ_mean_ci:dispersion"] = lambda a: D.circ_mean_ci(a["x"], method="dispersion")
    f["circ_mean_ci:approximate"] = lambda a: D.circ_mean_ci(a["x"], method="approximate")
    f["circ_median_ci"] = lambda a: D.circ_median_ci(alpha=a["x"])
    f["circ_mean_deviation"] = lambda a: D.circ_mean_deviation(a["x"], a["y"])
    f["circ_dist"] = lambda a: D.circ_dist(a["x"], a["y"])
    f["nonparametric_density_estimation"] = lambda a: D.nonparametric_density_estimation(a["x"], 0.7)
    f["angmod"] = one(U.angmod)
    f["angular_distance"] = lambda a: U.angular_distance(a["x"], 1.0)
    f["rotate_data"] = lambda a: U.rotate_data(a["x"], 1.0)
    f["data2rad"] = lambda a: U.data2rad(a["x"], 24)
    f["rad2data"] = lambda a: U.rad2data(a["x"], 24)
    for n in ("rayleigh_test", "omnibus_test", "kuiper_test", "watson_test", "rao_spacing_test", "circ_range_test", "symmetry_test", "chisquare_test"):
        if hasattr(H, n) and n != "chisquare_test":
            f[n] = (lambda g, m: lambda a: g(alpha=a["x01"] if m == "circ_range_test" else a["x"]))(getattr(H, n), n)
    f["kuiper_test:sim"] = lambda a: H.kuiper_test(alpha=a["x"], n_simulation=20, seed=3)
    f["watson_test:sim"] = lambda a: H.watson_test(alpha=a["x"], n_simulation=20, seed=3)
    f["rayleigh_test:w"] = lambda a: H.rayleigh_test(alpha=a["x"], w=a["w"])
    f["V_test"] = lambda a: H.V_test(angle=1.0, alpha=a["x"])
    f["batschelet_test"] = lambda a: H.batschelet_test(angle=1.0, alpha=a["x"])
    f["chisquare_test"] = lambda a: H.chisquare_test(a["w"])
    f["change_point_test"] = one(H.change_point_test)
    two = lambda g: lambda a: g([a["x"], a["y"]])
    for n in ("watson_u2_test", "wheeler_watson_test", "wallraff_test", "watson_williams_test", "circ_anova", "equal_kappa_test", "common_median_test", "concentration_test", "rao_homogeneity_test", "angular_randomisation_test"):
        if hasattr(H, n):
            f[n] = two(getattr(H, n)) if n not in ("concentration_test", "angular_randomisation_test") else None
    f["concentration_test"] = lambda a: H.concentration_test(a["x"], a["y"])
    f["angular_randomisation_test"] = lambda a: H.angular_randomisation_test([a["x"], a["y"]], n_simulation=20, seed=3)
    f["harrison_kanji_test"] = lambda a: H.harrison_kanji_test(a["x"], a["ga"], a["gb"])
    for m in ("fl", "js", "nonparametric"):
        f["circ_corrcc:" + m] = (lambda m: lambda a: C.circ_corrcc(a["x"], a["y"], method=m))(m)
    f["circ_corrcl"] = lambda a: C.circ_corrcl(a["x"], a["z"])
    f["CCRegression"] = lambda a: vals(R.CCRegression(theta=a["x"], x=a["y"], order=2).result)
    f["CircKMeans"] = lambda a: (lambda m: [m.fit(a["x"]).labels_, m.centers_, m.predict(a["y"])])(K.CircKMeans(n_clusters=2, random_seed=1, unit="radian"))
    f["CircHAC"] = lambda a: (lambda m: [m.fit(a["x"]).labels_, m.centers_])(K.CircHAC(n_clusters=2, random_seed=1, unit="radian"))

    def movm(a):
        m = K.MovM(n_clusters=2, unit="radian", random_seed=1, n_iters=20)
        m.fit(a["x"])
        return [m.m_, m.kappa_, m.p_, m.predict(a["y"]), m.predict_proba(a["y"])]

    f["MovM"] = movm
    f["vonmises.fit"] = lambda a: L.vonmises.fit(a["x"])
    f["wrapcauchy.fit:w"] = lambda a: L.wrapcauchy.fit(a["x"], weights=a["w"])
    f["cardioid.fit:moments"] = lambda a: L.cardioid.fit(a["x"], method="moments")
    for n, p in (("vonmises", (1.0, 2.0)), ("cardioid", (1.0, 0.3)), ("wrapcauchy", (1.0, 0.4)), ("triangular", (0.2,)), ("katojones", (1.0, 0.4, 0.3, 0.2)), ("jonespewsey", (1.0, 2.0, 0.5)), ("circularuniform", ())):
        for k in ("pdf", "cdf"):
            f[n + "." + k] = (lambda g, p: lambda a: g(a["x"], *p))(getattr(getattr(L, n), k), p)
    f["Circular"] = lambda a: (lambda c: [c.alpha, c.mean, c.r, c.kappa, c.s, c.skewness, c.data])(Circular(a["x"], unit="radian", kwargs_median=a["km"], kwargs_mean_ci=a["kc"]))
    f["Circular:w"] = lambda a: (lambda c: [c.alpha, c.w, c.mean, c.r, c.n])(Circular(a["x"], w=a["w"], unit="radian", kwargs_median=a["km"], kwargs_mean_ci=a["kc"]))
    f["Circular:bins"] = lambda a: (lambda c: [c.alpha, c.w, c.mean, c.r])(Circular(a["x"], w=a["w"], bins=12, unit="hour", kwargs_median=a["km"], kwargs_mean_ci=a["kc"]))
    f["Axial"] = lambda a: (lambda c: [c.alpha, c.mean, c.r, c.kappa])(Axial(a["x"], unit="radian", kwargs_median=a["km"], kwargs_mean_ci=a["kc"]))
    return {n: (lambda g: lambda a: vals(g(a)))(g) for n, g in f.items()}


#: documented for arrays only
ARRAYS = {"circ_r", "circ_mean", "circ_mean_and_r", "circ_moment", "circ_dispersion", "circ_skewness", "circ_kurtosis", "circ_var", "angular_var", "circ_std", "angular_std", "circ_median",
          "circ_range", "compute_C_and_S", "circ_mean_ci", "circ_median_ci", "angmod", "angular_distance", "rotate_data", "data2rad", "rad2data", "change_point_test", "circ_anova",
          "rao_homogeneity_test", "circ_mean_deviation", "circ_dist"}
OBJECTS = ("watson_u2_test", "wheeler_watson_test", "wallraff_test", "watson_williams_test", "angular_randomisation_test")
FORMS = ("float", "readonly", "strided", "list", "whole", "integer", "objects")


def form(kind, a):
    """The arguments in one form; scalars and dictionaries as they are."""
    import numpy as np
    from pycircstat2 import Circular

    out = {}
    for k, v in a.items():
        if not isinstance(v, np.ndarray):
            out[k] = dict(v)
            continue
        if kind in ("whole", "integer") and k in ("x", "y", "z", "x01"):
            v = np.floor(v)
        if kind == "readonly":
            v = v.copy()
            v.flags.writeable = False
        elif kind == "strided":
            v = np.stack([v, v], 1)[:, 0]
        elif kind == "list":
            v = list(v)
        elif kind == "integer":
            v = v.astype(int)
        elif kind == "objects" and k in ("x", "y"):
            v = Circular(v.copy(), unit="radian", kwargs_median={"method": None}, kwargs_mean_ci={"method": None})
        else:
            v = v.copy()
        out[k] = v
    return out


def look(v):
    """What the caller can see of an argument."""
    import numpy as np

    if hasattr(v, "alpha"):
        return ("object", v.alpha.tobytes(), v.w.tobytes(), v.data.tobytes(), repr((v.n, v.mean, v.r, v.kappa)))
    if isinstance(v, np.ndarray):
        return (v.dtype.str, v.shape, v.strides, v.flags.writeable, v.tobytes())
    return repr(v)


def replay(h):
    import warnings
    import zlib
    import numpy as np

    warnings.simplefilter("ignore")
    reg = registry()
    names = sorted(reg)
    out = []
    for st in h:
        rng = rng_of(st)
        x = rads(st["data"]["a"])
        n = len(x)
        a = {"x": x, "x01": x % (2 * np.pi), "y": rng.vonmises(1.0, 2.0, n), "z": rng.normal(0, 3, n), "w": rng.integers(1, 4, n), "ga": np.arange(n) % 2, "gb": np.arange(n) // 2 % 2,
             "km": {"method": None}, "kc": {"method": None}}
        calls = []
        # a few functions, each called in every form, in an order of their own, the first one twice
        picks = [names[i] for i in rng.permutation(len(names))[:10]]
        todo = []
        for f in picks:
            for k in FORMS:
                if (k == "objects" and f not in OBJECTS) or (k == "list" and f.split(":")[0] in ARRAYS):
                    continue
                todo.append((f, k))
        todo = [todo[i] for i in rng.permutation(len(todo))]
        todo += [todo[i] for i in rng.permutation(len(todo))[: len(todo) // 2]]
        for f, k in todo:
            arg = form(k, a)
            before = {q: look(v) for q, v in arg.items()}
            g0 = zlib.crc32(np.random.get_state()[1].tobytes()) + np.random.get_state()[2]
            v, e = vlib.call(lambda: reg[f](arg))
            v = [] if v is None else v
            g1 = zlib.crc32(np.random.get_state()[1].tobytes()) + np.random.get_state()[2]
            calls.append({"f": f, "k": k, "e": e or "", "kept": 1 if before == {q: look(u) for q, u in arg.items()} else 0, "rng": 1 if g0 == g1 else 0,
                          "bits": zlib.crc32(np.array(v, float).tobytes()) % 2000000000, "v": FV(v[:40])})
        out.append({"op": st["op"], "data": st["data"], "calls": calls, "exc": []})
    return out


def run(ctx):
    ctx.mc("MC_Call", workers=2)
    q = ctx.quick
    hs = samples(ctx, 200 if q else 3000, {8, 12, 16, 30}, kinds={"any", "wide", "half", "narrow", "raw", "seam"}, depth=2, ops={"Rotate", "Reflect", "Turn", "Wrap", "Insert"})
    ctx.validate("Trace_Call", ctx.record(replay, hs))


if __name__ == "__main__":
    vlib.main("C26", run)
