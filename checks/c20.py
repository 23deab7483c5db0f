"""C20: mixtures and their EM algorithm."""
from common import *

FAM = ["vonmises", "wrapcauchy", "wrapnorm", "cardioid"]
MODELS = ["MovM", "MoCD:vonmises", "MovM", "MoCD:wrapcauchy", "MoKJ", "MoCD:wrapnorm", "MovM", "MoCD:cardioid"]
STEPS = 4


def make(model, K, n_iters, seed, **kw):
    from pycircstat2 import clustering, distributions

    base = dict(n_clusters=K, n_iters=n_iters, random_seed=seed, burnin=kw.pop("burnin", 30))
    base.update(kw)
    if model == "MovM":
        return clustering.MovM(threshold=1e-9, **base)
    if model == "MoKJ":
        return clustering.MoKJ(threshold=1e-9, **base)
    return clustering.MoCD(getattr(distributions, model[5:]), fit_method="mle", threshold=1e-9, **base)


def state(m):
    f = "katojones" if type(m).__name__ == "MoKJ" else "vonmises" if type(m).__name__ == "MovM" else m.distribution.name
    comps = []
    for q in m.params_:
        v = list(q.items())
        if v[0][0] != "mu":
            raise KeyError("mu")
        comps.append({"f": f, "loc": A(v[0][1]), "p": FV([x for _, x in v[1:]])})
    return {"p": FV(m.p_), "c": comps}


def nicest(m):
    """True when the fit has stayed away from point-like components."""
    return all(0.02 < q.get("kappa", 1) < 400 and q.get("rho", 0) < 0.995 for q in m.params_)


def replay(h):
    import numpy as np

    out = []
    s0 = hash_ints(h[0]["data"]["a"])
    model = MODELS[s0 % 8]
    K = 1 + s0 // 8 % (2 if model == "MoKJ" else 3)
    seed = s0 % 1000
    unit = [dict(unit="degree"), dict(unit="radian"), dict(unit="degree", full_cycle=24)][s0 // 32 % 3]
    scale = {0: 1e-6, 2: 1e-6 / 15}.get(s0 // 32 % 3)
    conv = (lambda a: np.array(a, float) * scale) if scale else rads
    kj = model == "MoKJ"
    for st in h:
        d = st["data"]
        x = conv(d["a"])
        rg = rng_of(st)
        new = [int(v) + T * int(k) for v, k in zip(rg.integers(0, T, 4), [0, 0, rg.integers(-3, 4), rg.integers(-5, 5)])] + [d["a"][0] % T]
        xn = conv(new)
        ob = Obs()
        ob.o["new"] = new
        L = 3 if kj else 40

        def fits():
            return [state(make(model, K, k, seed, **unit).fit(x)) for k in range(1, (2 if kj else STEPS) + 1)]

        ob.get("states", "J", fits, limit=60)
        box = {}

        def long():
            np.random.seed(s0 % 77)
            np.random.random(5)
            m = make(model, K, L, seed, burnin=3, **unit).fit(x)
            box["m"] = m
            return state(m)

        ob.get("fin", "J", long, limit=60)
        m = box.get("m")
        if m is not None:
            ob.get("nll", "FV", lambda: m.nLL)
            ob.get("gam", "J", lambda: [FV(r) for r in (m.gamma_resp_ if kj else m.gamma_)])
            ob.get("lab", "IV", lambda: m.labels_)
            ob.get("bic", "F", lambda: m.compute_BIC())
            ob.get("dens", "FV", lambda: m.predict_density(xn))
            ob.get("proba", "J", lambda: [FV(r) for r in m.predict_proba(xn)])
            ob.get("pred", "IV", lambda: m.predict(xn))
            ob.get("grid", "FV", lambda: m.predict_density()[:: 50])
            ob.get("gridn", "I", lambda: len(m.predict_density()))
            ob.get("conv", "B", lambda: m.converged)
            ob.get("convn", "I", lambda: -1 if m.converged_iters is None else m.converged_iters)
            if model == "MovM":
                ob.get("cg", "J", lambda: [FV(r) for r in m.compute_gamma(rads(new), m.p_, m.m_, m.kappa_)])
                ob.get("cn", "F", lambda: m.compute_nLL(rads(d["a"]), m.p_, m.m_, m.kappa_))
            if model.startswith("MoCD"):
                ob.get("ss", "FV", lambda: m.score_samples(xn))
                ob.get("sc", "F", lambda: m.score(x))
                ob.get("pm", "B", lambda: all(np.array_equal(list(q.values()), r) for q, r in zip(m.params_, m.param_matrix_)))

            def rep():
                before = x.copy()
                w = make(model, K, L, seed, burnin=3, **unit)
                w.fit(conv([5000000, 9000000, 30000000, 110000000, 200000000, 300000000, 301000000, 303000000]))
                w.fit(list(x))
                same = np.array_equal(w.nLL, m.nLL) and np.array_equal(w.p_, m.p_) and w.params_ == m.params_ and np.array_equal(w.labels_, m.labels_)
                same = same and w.converged == m.converged and w.converged_iters == m.converged_iters
                return same and np.array_equal(before, x) and np.array_equal(w.predict_proba(xn), m.predict_proba(xn), equal_nan=True)

            ob.get("rep", "B", rep, limit=60)
        ob.get("unitless", "J", lambda: [state(make(model, K, 1, seed, unit="radian").fit(rads(d["a"])))])
        ob.get("bad", "I", lambda: sum(0 if raises(g) else 1 for g in [
            lambda: make(model, 0, 3, 1), lambda: make(model, 2, 0, 1), lambda: make(model, 2, 3, 1, burnin=-1), lambda: make(model, 2, 3, 1, unit="turn"),
            lambda: make(model, 2, 3, 1).fit([]), lambda: make(model, 3, 3, 1).fit([1.0, 2.0]), lambda: make(model, 2, 3, 1).compute_BIC()]))
        out.append(ob.rec({"op": st["op"], "data": d, "kind": st["kind"], "model": model, "K": K, "L": L, "burnin": 3, "key": ""}))
    return out


def run(ctx):
    ctx.mc("MC_Mixture")
    ctx.mc("MC_Mixture", cfg="MC_MixtureB")
    q = ctx.quick
    hs = samples(ctx, 160 if q else 1200, set(range(10, 27)), ops={"Rotate", "Reflect", "Turn", "Wrap", "Insert", "Remove"}, depth=2)
    ctx.validate("Trace_Mixture", ctx.record(replay, hs))


if __name__ == "__main__":
    vlib.main("C20", run)
