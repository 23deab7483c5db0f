"""C23: what a distribution returns does not depend on earlier calls."""
import json

from common import *

KINDS_H = ["pdf", "logpdf", "cdf", "sf", "ppf", "isf", "frozen", "rvs", "moment", "entropy", "fit", "array", "clear", "draw"]
_SRC = []


def fresh_module():
    """The distributions as they are before anybody has asked anything: a module of its own."""
    import os
    import types

    if not _SRC:
        import pycircstat2.distributions as D

        _SRC.append(compile(open(D.__file__).read(), os.path.abspath(D.__file__), "exec"))
    m = types.ModuleType("pycircstat2._fresh")
    m.__package__ = "pycircstat2"
    exec(_SRC[0], m.__dict__)
    return m


def ask(d, f, p, q, xs, qs, seed):
    import numpy as np

    x, u = rads(xs), np.array(qs, float) / 1e6
    if q in ("pdf", "logpdf", "cdf", "sf"):
        return getattr(d, q)(x, *p)
    if q in ("ppf", "isf"):
        return getattr(d, q)(u, *p)
    if q == "frozen":
        return d(*p).pdf(x)
    if q == "array":
        return np.concatenate([np.atleast_1d(d.pdf(float(v), *p)) for v in x] + [np.atleast_1d(d.cdf(np.array([[v] for v in x]), *p)).ravel()])
    if q == "rvs":
        return d.rvs(*p, size=4, random_state=seed)
    if q == "moment":
        m = d.trig_moment(1, *p)
        return np.array([m.real, m.imag])
    if q == "entropy":
        return np.atleast_1d(d.entropy(*p))
    if q == "fit":
        g = np.random.default_rng(seed)
        data = np.mod(p[0] if p else 1 + g.normal(0, .9, 14), 6.283) if f in ("circularuniform", "triangular") else np.mod(p[0] + g.normal(0, .9, 14), 6.283)
        if f == "circularuniform":
            return np.zeros(1)
        if f in ("inverse_batschelet", "wrapstable", "vonmises_flattopped", "katojones", "jonespewsey"):
            return np.atleast_1d(d.fit(data, method="moments"))
        return np.atleast_1d(np.asarray(d.fit(data), float))
    raise ValueError(q)


def replay(h):
    import warnings
    import numpy as np
    import pycircstat2.distributions as D

    warnings.simplefilter("ignore")
    head = h[0]
    out = [{"op": head["op"], "key": "", "q": "", "o": {}, "exc": [], "law": head["pool"][0], "xs": [], "qs": []}]
    np.random.seed(12345)
    for st in h[1:]:
        a = st["ask"]
        law = head["pool"][a["i"] - 1]
        _, p = law_args(law)
        f = law["f"]
        d = getattr(D, f)
        xs, qs = head["xs"][a["v"] - 1], head["qs"][a["v"] - 1]
        seed = head["seed"] + a["v"]
        rec = {"op": st["op"], "law": law, "q": a["q"], "xs": xs if a["q"] in ("pdf", "cdf", "sf", "frozen") else [], "qs": qs, "seed": seed,
               "key": "%s %s %d" % (json.dumps(law, sort_keys=True), a["q"], a["v"])}
        if a["q"] in ("clear", "draw"):
            if a["q"] == "clear":
                fn = getattr(d, "_clear_normalization_cache", None)
                v, e = vlib.call(fn) if fn else (None, None)
            else:
                v, e = vlib.call(lambda: d.rvs(*p, size=3))
                np.random.seed(12345)
            out.append({**rec, "o": {}, "exc": []})
            continue
        ob = Obs()
        s0 = np.random.get_state()
        res = ob.get("ans", "FV", lambda: np.atleast_1d(ask(d, f, p, a["q"], xs, qs, seed)))
        s1 = np.random.get_state()
        ref = ob.get("fresh", "FV", lambda: np.atleast_1d(ask(getattr(fresh_module(), f), f, p, a["q"], xs, qs, seed)))
        ob.get("bits", "B", lambda: bool(np.array_equal(np.asarray(res, float), np.asarray(ref, float), equal_nan=True)))
        ob.get("glob", "B", lambda: s0[2] == s1[2] and bool(np.array_equal(s0[1], s1[1])))
        out.append(ob.rec(rec))
    return out


def run(ctx):
    ctx.mc("MC_Cache", consts=None if ctx.quick else {"Bs": "{1, 2, 3, 4}"}, workers=2)
    depth = 12 if ctx.quick else 16
    hs = ctx.gen("GenHist", {"Fams": FAMS, "OpNames": {"Same"}, "Depth": depth, "Deg": False, "Kinds": set(KINDS_H)}, 400 if ctx.quick else 1500, depth, salt=23, spec="HSpec")
    ctx.validate("Trace_Hist", ctx.record(replay, hs))


if __name__ == "__main__":
    vlib.main("C23", run)
