"""C22: distributions are periodic, turn with their location, agree in every calling form."""
from common import *


def same(a, b):
    import numpy as np

    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))


def replay(h):
    import math
    import warnings
    import numpy as np

    warnings.simplefilter("ignore")
    tp = 2 * math.pi
    out = []
    for st in h:
        d, p = law_args(st["law"])
        f = st["law"]["f"]
        x = rads(st["xs"])
        q = np.array(st["qs"], float) / 1e6
        g = rng_of_law(st)
        ob = Obs()

        def mom():
            v = [d.trig_moment(k, *p) for k in (1, 2, 3)]
            return [u for z in v for u in (z.real, z.imag)]

        ob.get("tm", "FV", mom)
        # the bundle gives the summaries; two of the methods of their own are compared with it each time
        sm, exc = vlib.call(lambda: d.stats(*p))
        sm = sm or {}
        ob.get("mean", "A", lambda: sm["mean"])
        for k, m in (("r", "r"), ("var", "var"), ("std", "std"), ("disp", "dispersion"), ("skew", "skewness"), ("kurt", "kurtosis")):
            ob.get(k, "F", lambda: sm[m])
        ob.get("ent", "F", lambda: d.entropy(*p))
        SUM = ["mean", "median", "r", "var", "std", "dispersion", "skewness", "kurtosis"]
        two = [SUM[i] for i in g.choice(8, 2, replace=False)]
        # moments that vanish, and ratios of differences that vanish, are known to rounding only
        flat = sm.get("r", 0) < 1e-4

        def agrees(m):
            a, b = getattr(d, m)(*p), sm[m]
            if m == "mean":
                return flat or abs((a - b + math.pi) % tp - math.pi) < 1e-6
            if flat and m in ("std", "dispersion"):
                return True
            return bool(np.isclose(a, b, rtol=1e-6, atol=1e-7 / max(1e-9, sm["var"]) ** 2 if m in ("skewness", "kurtosis") else 1e-7, equal_nan=True))

        ob.get("stats", "B", lambda: all(agrees(m) for m in two) and set(sm) == set(SUM))
        ob.get("median", "B", lambda: same(float(d.median(*p)), p[0] if f == "vonmises" else float(d.ppf(.5, *p))))
        ob.get("interval", "B", lambda: same(np.array(d.interval(.5, *p)), np.array([d.ppf(.25, *p), d.ppf(.75, *p)])))
        y = np.array([v for v in x if 1e-3 < v < tp - 1e-3] or [1.0])
        k = float(g.integers(-3, 4)) * tp
        near = lambda a, b, t: bool(np.allclose(a, b, rtol=t, atol=t))
        # next to the corner of the triangular law and the antimode a ulp of the angle matters little; densities are Lipschitz on this domain
        ob.get("per", "B", lambda: near(d.pdf(y + k, *p), d.pdf(y, *p), 1e-9) and near(d.pdf(0.0, *p), d.pdf(tp, *p), 1e-9))
        ob.get("percdf", "B", lambda: near(d.cdf(y + k, *p), d.cdf(y, *p), 1e-8) and near(d.sf(y + k, *p), d.sf(y, *p), 1e-8))
        z = d(*p)
        names = [s.strip() for s in (d.shapes or "").split(",") if s.strip()]
        kws = dict(zip(names, p))

        def frozen():
            n = 0
            for m in ("pdf", "logpdf", "cdf", "sf", "logcdf", "logsf"):
                n += not same(getattr(z, m)(x), getattr(d, m)(x, *p))
            for m in ("ppf", "isf"):
                n += not same(getattr(z, m)(q), getattr(d, m)(q, *p))
            for m in [*two[:1], "entropy"]:
                n += not same(getattr(z, m)(), getattr(d, m)(*p))
            n += not (same(z.trig_moment(2), d.trig_moment(2, *p)) if g.integers(0, 3) else same(z.stats(), d.stats(*p)))
            n += not same(np.array(z.interval(.3)), np.array(d.interval(.3, *p)))
            n += not same(d.freeze(*p).pdf(x), d.pdf(x, *p))
            n += not same(z.rvs(size=3, random_state=int(st["qs"][0])), d.rvs(*p, size=3, random_state=int(st["qs"][0])))
            n += not same(d(**kws).rvs(size=3, random_state=5), d.rvs(**kws, size=3, random_state=5))
            return n

        ob.get("frozen", "I", frozen)

        def kw():
            n = 0
            for m, a in (("pdf", x), ("cdf", x), ("ppf", q), ("sf", x)):
                n += not same(getattr(d, m)(a, **kws), getattr(d, m)(a, *p))
            n += not same(d(**kws).pdf(x), d.pdf(x, *p))
            n += not same(d.trig_moment(1, **kws), d.trig_moment(1, *p)) if names and not g.integers(0, 3) else 0
            return n

        ob.get("kw", "I", kw)

        def shapes():
            n = 0
            for m, a in (("pdf", x), ("logpdf", x), ("cdf", x), ("sf", x), ("ppf", q), ("isf", q)):
                fn = getattr(d, m)
                ref = np.asarray(fn(a, *p), float)
                two = np.asarray(fn(np.array([a[:4].reshape(2, 2)]), *p), float)
                n += not (two.shape == (1, 2, 2) and near(two.ravel(), ref[:4], 1e-9))
                n += not near(np.asarray(fn(list(a), *p), float), ref, 1e-12)
                n += not (np.ndim(fn(float(a[0]), *p)) == 0 and all(near(fn(float(v), *p), r, 1e-7) for v, r in zip(a, ref)))
                n += not near(np.asarray(fn(a[::-1].copy(), *p), float)[::-1], ref, 1e-7)
                n += np.asarray(fn(np.array([]), *p)).size != 0
            return n

        ob.get("shapes", "I", shapes)

        def arrays():
            # a vector for one of the parameters: elementwise, or refused
            n = 0
            if not p:
                return 0
            i = int(g.integers(0, len(p)))
            i = 0 if f == "katojones" else i
            v = [p[i], p[i] * .999]
            pa = [np.array(v) if j == i else u for j, u in enumerate(p)]
            pb = [[*p[:i], u, *p[i + 1:]] for u in v]
            for m, a in (("pdf", x[:2]), ("cdf", x[:2]), ("sf", x[:2]), ("logpdf", x[:2]), ("ppf", q[:2]), ("isf", q[:2])):
                fn = getattr(d, m)
                got, e = vlib.call(lambda: fn(a, *pa))
                if e is not None:
                    n += e not in ("ValueError", "TypeError")
                else:
                    n += not near(np.asarray(got, float), [float(fn(float(s), *t)) for s, t in zip(a, pb)], 1e-7)
            return n

        ob.get("arrays", "I", arrays)

        def locscale():
            n = 0
            for m, a in (("pdf", x), ("cdf", x), ("ppf", q), ("rvs", 2)):
                for kk in ({"loc": 1.0}, {"scale": 2.0}):
                    n += vlib.call(lambda: getattr(d, m)(a, *p, **kk) if m != "rvs" else d.rvs(*p, size=2, random_state=1, **kk))[1] != "TypeError"
                n += vlib.call(lambda: same(getattr(d, m)(a, *p, loc=0, scale=1), getattr(d, m)(a, *p)))[0] is not True if m != "rvs" else 0
            return n

        ob.get("locscale", "I", locscale)
        ob.get("ends", "B", lambda: d.support(*p) == (0.0, tp))
        out.append(ob.rec({"op": st["op"], "law": st["law"], "xs": st["xs"], "qs": st["qs"], "key": ""}))
    return out


def run(ctx):
    hs = laws(ctx, 140 if ctx.quick else 1200, ops=("Turn", "Turn", "Turn", "Nudge", "Other"), depth=2, salt=22)
    ctx.validate("Trace_Moment", ctx.record(replay, hs))


if __name__ == "__main__":
    vlib.main("C22", run)
