"""C07: Circular objects."""
from common import *

UNITS = [("degree", None), ("radian", None), ("hour", None), ("degree", 360), ("month", 12), ("gradian", 400), ("radian", 6.283185307179586), ("hour", 24), ("degree", 400)]


def build(st, rng, ax):
    """Arguments of an object for this state: the same data in a unit of its own, some options."""
    import numpy as np

    u, fc = UNITS[rng.integers(0, len(UNITS))]
    cyc = fc or {"degree": 360, "radian": 2 * np.pi, "hour": 24}[u]
    a = np.array(st["data"]["a"], float) * (cyc / T)
    w = st["data"]["w"]
    wt = None if all(v == 1 for v in w) and st["kind"] != "grouped" else np.array(w)
    c = {"m": 0, "rot": 0, "ax": ax}
    kw = {"unit": u}
    if fc is not None:
        kw["full_cycle"] = fc
    m = rng.random()
    if m < 0.3:
        c["m"] = int(rng.choice([4, 5, 6, 8, 12, 18, 36]))
        e = np.linspace(0, 2 * np.pi, c["m"] + 1)
        kw["bins"] = [c["m"], c["m"], e, list(e)][rng.integers(0, 4)]
    if wt is not None and len(w) == 1 and c["m"] == 0:  # no bin width can be inferred
        a, wt = np.repeat(a, w), None
    if not ax and rng.random() < 0.3:
        c["rot"] = int(rng.integers(-T, T))
        kw["rotate"] = rad(c["rot"])
    km = [{}, {"method": "count"}, {"method": None}, {"method": "deviation", "return_average": True, "average_method": "all"}][rng.integers(0, 4)]
    kw["kwargs_median"] = km
    ci = "default"
    if c["m"] == 0 and rng.random() < 0.3:
        ci = str(rng.choice(["bootstrap", "dispersion", "approximate"]))
        kw["kwargs_mean_ci"] = {"method": ci}
    form = rng.integers(0, 4)
    data = [a, list(a), a.copy(), np.asfortranarray(np.stack([a, a], 1))[:, 0]][form]
    if form == 2:
        data.flags.writeable = False
    if wt is not None:
        kw["w"] = [wt, list(int(v) for v in w)][rng.integers(0, 2)]
    return c, ci, data, kw, a, wt, cyc


def copy(x):
    import numpy as np

    return x.copy() if isinstance(x, np.ndarray) else dict(x) if isinstance(x, dict) else list(x) if isinstance(x, list) else x


def equal(x, y):
    import numpy as np

    return type(x) is type(y) and (np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y)


STATS = ("n", "mean", "r", "R", "kappa", "s", "s0", "median", "skewness", "kurtosis", "mean_lb", "mean_ub", "median_lb", "median_ub", "bin_size", "method_mean_ci")


def snap(o):
    import numpy as np

    v = {k: getattr(o, k) for k in STATS if hasattr(o, k)}
    return {k: (x if isinstance(x, str) or x is None else np.array(x, float)) for k, x in v.items()} | {"alpha": np.array(o.alpha, float), "w": np.array(o.w), "p": np.array(o.mean_test_result.pval)}


def snap_eq(x, y):
    import numpy as np

    return x.keys() == y.keys() and all((a is None and y[k] is None) or (isinstance(a, str) and a == y[k]) or (isinstance(a, np.ndarray) and np.array_equal(a, y[k], equal_nan=True)) for k, a in x.items())


def text(o, cyc, h):
    """[printed, stated, scale] for every number of the summary."""
    import re
    import numpy as np

    s = o.summary()
    out = []

    def line(name, *vals, scale=1.0):
        m = re.search(r"^  %s: (.*)$" % re.escape(name), s, re.M)
        nums = re.findall(r"-?(?:\d+\.?\d*|nan|inf)", m.group(1).split("( p")[0]) if m else []
        for v, t in zip(vals, nums + [float("nan")] * len(vals)):
            if np.isfinite(v):
                out.append([F(float(t)), F(float(v)), F(1.0)])

    u = cyc / (2 * np.pi)
    line("Sample size", o.n)
    line("Angular mean", o.mean * u)
    line("Angular median", o.median * u)
    line("Angular deviation (s)", o.s * u)
    line("Circular standard deviation (s0)", o.s0 * u)
    line("Concentration (r)", o.r)
    line("Concentration (kappa)", o.kappa)
    line("Skewness", o.skewness)
    line("Kurtosis", o.kurtosis)
    if np.isfinite(o.mean_lb):
        line("Angular mean CI (%.2f)" % o.mean_ci_level, o.mean_lb * u, o.mean_ub * u)
    head = ("Grouped?: Yes" in s) == bool(o.grouped) and ("Unit: %s\n" % o.unit) in s and s == repr(o) == str(o)
    return out, head


def observe(st, k, ax, cls):
    import warnings
    import numpy as np
    import pycircstat2
    import pycircstat2.descriptive as D
    from pycircstat2.clustering import MovM

    warnings.simplefilter("ignore")
    C = getattr(pycircstat2, cls) if hasattr(pycircstat2, cls) else getattr(__import__("pycircstat2.base", fromlist=[cls]), cls)
    # the options stay the same for the first two steps of a behaviour
    rng = np.random.default_rng([hash_ints(k), ax])
    c, ci, data, kw, a, wt, cyc = build(st, rng, ax)
    d = st["data"]
    nmix = 3 if not ax and hash_ints(d["a"]) % 12 == 0 and len(a) >= 6 and wt is None else 1
    rg = (2 * a) % cyc if ax else a
    ob = Obs()
    before = {x: copy(v) for x, v in kw.items()}
    data0 = copy(data)
    box = {}

    def alone_ci(o, al, w, mean, r):
        np.random.seed(5)
        return D.circ_mean_ci(alpha=al, w=w, mean=mean, r=r, n=int(np.sum(w)), ci=0.95, method=o.method_mean_ci)

    def mk():
        np.random.seed(5)
        return C(data, n_clusters_max=nmix, **{x: (v if x != "kwargs_median" else v) for x, v in kw.items()})

    v, e = vlib.call(mk)
    if e is not None and ci != "default" and e == "ValueError":  # the interval asked for is undefined here
        c, ci = c, "default"
        kw.pop("kwargs_mean_ci")
        before.pop("kwargs_mean_ci")

    def make():
        o = mk()
        box["o"] = o
        return int(o.n)

    ob.get("n", "I", make)
    if "o" in box:
        o = box["o"]
        kept = equal(data, data0) and all(equal(kw[x], before[x]) for x in kw)
        s1 = snap(o)
        al = o.alpha_double if ax else o.alpha
        ob.get("alpha", "AV", lambda: al)
        if ax:
            ob.get("raw", "AV", lambda: np.asarray(o.alpha) if wt is not None or len(a) == len(d["a"]) else np.asarray(o.alpha)[:1])
        ob.get("w", "IV", lambda: o.w)
        ob.get("grouped", "B", lambda: bool(o.grouped))
        ob.get("bin", "A", lambda: o.bin_size)
        ob.get("lb", "AV", lambda: getattr(o, "alpha_lb", []))
        ob.get("ub", "AV", lambda: getattr(o, "alpha_ub", []))
        ob.get("mean", "A", lambda: o.mean)
        for nm, at in (("r", "r"), ("R", "R"), ("kappa", "kappa"), ("s", "s"), ("s0", "s0"), ("skew", "skewness"), ("kurt", "kurtosis"), ("lo", "mean_lb"), ("hi", "mean_ub")):
            ob.get(nm, "F", lambda: getattr(o, at))
        ob.get("z", "F", lambda: o.n * o.r**2)
        ob.get("p", "F", lambda: o.mean_test_result.pval)
        ob.get("how", "J", lambda: o.method_mean_ci or "none")
        ob.get("unit", "B", lambda: o.unit == kw["unit"] and abs(o.full_cycle - cyc) < 1e-12 and (len(o.data) == len(data0)))

        def alone():
            w = o.w
            r = []
            h = 2 if ax else 1
            m = {**{"method": "deviation", "return_average": True, "average_method": "all"}, **kw["kwargs_median"]}
            med = D.circ_median(alpha=al, w=w, **m)
            r.append([F(o.median), F(med / h)])
            dm, dr = D.circ_mean_and_r(al, w)
            r.append([F(o.mean), F(dm / h)])
            r.append([F(o.r), F(dr)])
            if o.method_mean_ci is not None and o.mean_test_result.pval < 0.05:
                (x, e) = vlib.call(lambda: alone_ci(o, al, w, dm, dr))
                x = (float("nan"), float("nan")) if e is not None else x
                r.append([F(o.mean_lb), F(x[0] / h)])
                r.append([F(o.mean_ub), F(x[1] / h)])
                r.append([F(o.mean_ci_level), F(0.95)])
            if not o.grouped and np.isfinite(med):
                x = D.circ_median_ci(median=float(med), alpha=al)
                r.append([F(o.median_lb), F(x[0] / h)])
                r.append([F(o.median_ub), F(x[1] / h)])
                r.append([F(o.median_ci_level), F(x[2])])
            elif hasattr(o, "median_lb"):
                r.append([F(1.0), F(0.0)])
            return r

        ob.get("alone", "J", alone)
        ob.tup(["text", "head"], ["J", "B"], lambda: text(o, cyc, 1))

        def mixtures():
            if nmix == 1:
                return o.mixtures == []
            x = np.repeat(al, o.w)
            ms = [MovM(n_clusters=j, full_cycle=o.full_cycle, unit="radian", random_seed=0) for j in range(1, nmix + 1)]
            for m in ms:
                m.fit(x)
            b = [m.compute_BIC() for m in ms]
            return len(o.mixtures) == nmix and np.allclose(o.mixtures_BIC, b, equal_nan=True) and (o.mixture_opt is (o.mixtures[int(np.nanargmin(b))] if not np.isnan(b).all() else None))

        ob.get("mix", "B", mixtures)

        def same():
            o.summary()
            s2 = snap(mk())
            return snap_eq(s1, s2) and snap_eq(s1, snap(o))

        ob.get("same", "B", same)
        ob.o["kept"] = 1 if kept and equal(data, data0) and all(equal(kw[x], before[x]) for x in kw) else 0
        if ax:
            fl = np.random.default_rng(hash_ints(d["a"])).integers(-2, 3, len(a))

            def flip():
                f = C(a + fl * (cyc / 2), **{x: v for x, v in kw.items() if x != "kwargs_mean_ci"})
                box["f"] = f
                return f.r, f.mean_test_result.pval

            ob.get("flip", "FV", flip)
            ob.get("flipm", "A", lambda: box["f"].mean)
        ob.get("bad", "I", lambda: sum(0 if raises(g, (ValueError,)) else 1 for g in [lambda: C(a, unit="furlong")])
               + sum(0 if raises(g, (AssertionError, ValueError)) else 1 for g in [lambda: C(a, w=np.ones(len(a) + 1, int)), lambda: C(a, w=np.ones(len(a) + 1, int), bins=6)]))
    width = T // len(d["a"]) if st["kind"] == "grouped" else 0
    if ax and width:  # bins half a turn apart fall together
        width = 2 * width if len(d["a"]) % 2 == 0 else width
    odd = 1 if wt is not None and st["kind"] != "grouped" and c["m"] == 0 else 0
    if c["m"] and ax:
        odd = 0
    return ob.rec({"op": st["op"], "data": d, "kind": st["kind"], "c": c, "ci": ci, "w": 1 if wt is not None else 0, "width": width, "odd": odd, "key": ""}), (wt is None and len(a) != len(d["a"]))


def replay(h, ax=0, cls="Circular"):
    key = [hash_ints(h[0]["data"]["a"]), hash_ints(h[0]["data"]["w"])]
    out = []
    for i, st in enumerate(h):
        r, expanded = observe(st, key + [i // 2], ax, cls)
        if expanded:  # recorded as one reading per observation: not a state of this behaviour
            r["o"]["alpha"], r["o"]["w"] = r["o"]["alpha"][:1], [int(sum(st["data"]["w"]))]
            r["w"] = 0
        out.append(r)
    return out


def run(ctx):
    ctx.mc("MC_Circ", workers=2)
    q = ctx.quick
    hs = samples(ctx, 180 if q else 2500, {1, 2, 3, 6, 9, 14, 24, 25, 26}, depth=3, wk=(0,), ops=OPS - {"Expand", "Split", "Scale"})
    hs += samples(ctx, 60 if q else 800, {12}, kinds={"grouped"}, depth=3, wk=(1,), ops={"Rotate", "Reflect", "Turn", "Wrap", "Swap", "Reverse"}, salt=3)
    ctx.validate("Trace_Circ", ctx.record(replay, hs))


if __name__ == "__main__":
    vlib.main("C07", run)
