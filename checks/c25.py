"""C25: fits of the circular laws."""
from common import *

# family -> (methods, number of shape parameters)
FITS = {
    "triangular": ("mle", "moments"), "cardioid": ("mle", "moments"), "cartwright": ("mle", "moments"), "wrapnorm": ("mle", "moments"),
    "wrapcauchy": ("mle", "moments"), "vonmises": ("mle", "moments"), "vonmises_flattopped": ("mle", "moments"), "jonespewsey": ("mle", "moments"),
    "jonespewsey_sineskewed": ("two-step", "mle"), "jonespewsey_asym": ("mle",), "inverse_batschelet": ("moments", "mle"), "wrapstable": ("mle",),
    "katojones": ("moments", "mle"),
}
ORDER = ["vonmises", "cardioid", "wrapcauchy", "katojones", "wrapnorm", "triangular", "cartwright", "jonespewsey", "vonmises", "wrapcauchy",
         "vonmises_flattopped", "jonespewsey_sineskewed", "katojones", "cardioid", "cartwright", "jonespewsey_asym", "triangular", "inverse_batschelet",
         "wrapnorm", "wrapstable"]
SLOW = {"jonespewsey_asym", "inverse_batschelet", "wrapstable", "jonespewsey_sineskewed"}


def enc(f, est):
    import numpy as np

    v = [float(x) for x in np.atleast_1d(np.asarray(est, float))]
    if f == "triangular":
        return {"f": f, "loc": 0, "p": FV(v)}
    return {"f": f, "loc": A(v[0]), "p": FV(v[1:])}


def inrange(f, est):
    """Locations within [0, 2 pi)."""
    import numpy as np

    v = np.atleast_1d(np.asarray(est, float))
    return bool(np.all(np.isfinite(v))) and (f == "triangular" or 0 <= v[0] < 2 * np.pi)


def replay(h):
    import warnings
    import numpy as np
    from pycircstat2 import distributions

    warnings.simplefilter("ignore")
    out = []
    s0 = hash_ints(h[0]["data"]["a"])
    f = ORDER[s0 % len(ORDER)]
    if h[0]["kind"] == "tight" and s0 // 640 % 3:
        f = "vonmises"  # far into large concentrations
    ms = FITS[f]
    m = ms[s0 // 32 % len(ms)]
    D = getattr(distributions, f)
    if f == "inverse_batschelet" and ("--thorough" not in sys.argv or s0 // 64 % 24):
        m = "moments"  # a numerical fit takes half a minute
    how = {} if f == "jonespewsey_asym" else {"method": m}
    for st in h:
        d = st["data"]
        x = rads(d["a"])
        w = None if all(v == 1 for v in d["w"]) else np.array(d["w"], float)
        ob = Obs()
        box = {}

        def fit():
            before = x.copy()
            e, info = D.fit(x, weights=w, return_info=True, **how)
            box["e"] = e
            ob.o["nll"] = 0 if info.get("method") == "mle" or "loglik" in info else 1  # two moment fits do not report it
            ob.o["ll"] = F(info.get("loglik", float("nan")))
            ob.o["neff"] = F(info["n_effective"])
            ob.o["info"] = 1 if info.get("method", m) == m and np.array_equal(before, x) else 0
            ob.o["ok"] = 1 if inrange(f, e) else 0
            return enc(f, e)

        ob.get("est", "J", fit, limit=10 if f == "jonespewsey_asym" else 60)
        for k in ("ll", "neff"):
            ob.o.setdefault(k, F(float("nan")))
        if "e" in box:
            one = f in SLOW and m != "moments"
            ob.get("mom", "J", lambda: enc(f, D.fit(x, weights=w, method="moments")) if "moments" in ms else enc(f, box["e"]), limit=60)
            ob.get("mu0", "J", lambda: enc("vonmises", distributions.vonmises.fit(x, weights=w, method="moments")))
            if not one:
                ob.get("rep", "J", lambda: enc(f, D.fit(np.repeat(x, d["w"]), **how)), limit=100)
                ob.get("same", "B", lambda: np.array_equal(np.atleast_1d(D.fit(list(x), weights=None if w is None else list(w), **how)), np.atleast_1d(box["e"])), limit=100)
            else:
                ob.o["rep"] = ob.o["est"]
                ob.o["same"] = 1
            if f == "wrapstable":
                for k, y in (("ws", x), ("wsm", -x), ("wst", x + np.pi / 2)):
                    ob.get(k, "J", lambda: enc(f, D.fit(y, weights=w, method="moments")))
            ob.get("bad", "I", lambda: sum(0 if raises(g, (ValueError, RuntimeError)) else 1 for g in [
                lambda: D.fit(x, **(dict(method="guess") if how else dict(weights=-np.abs(x) - 1))), lambda: D.fit(x, weights=-np.ones_like(x), **how), lambda: D.fit(x, weights=np.zeros_like(x), **how), lambda: D.fit([], **how)]
                ) + (0 if raises(lambda: distributions.circularuniform.fit(x), (NotImplementedError,)) else 1))
        out.append(ob.rec({"op": st["op"], "data": d, "kind": st["kind"], "fam": f, "m": m, "pk": int(rng_of(st).integers(0, 1000)), "key": ""}))
    return out


def run(ctx):
    ctx.mc("MC_Fit", workers=2)
    q = ctx.quick
    hs = samples(ctx, 300 if q else 3000, set(range(6, 25)), wk=(0, 1), ops={"Rotate", "Reflect", "Turn", "Wrap", "Swap", "Scale", "Insert"}, depth=2)
    ctx.validate("Trace_Fit", ctx.record(replay, hs))


if __name__ == "__main__":
    vlib.main("C25", run)
