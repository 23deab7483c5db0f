"""C02: point estimates of a sample."""
from common import *


def replay(h):
    import numpy as np
    import pycircstat2.descriptive as d
    from pycircstat2.utils import angmod  # noqa

    out = []
    for k, st in enumerate(h):
        a, w = rads(st["data"]["a"]), np.array(st["data"]["w"])
        ones = all(v == 1 for v in st["data"]["w"])
        n = int(w.sum())
        ws = None if ones and k % 2 == 0 else w
        ob = Obs()
        grouped = st["kind"] == "grouped"
        seed = (sum(st["data"]["a"]) + 7919 * n) % (2**31)
        rng = np.random.default_rng(seed)
        mu = int(rng.integers(0, vlib.T))
        b = int(rng.choice([0, 0, 5000000, 10000000, 30000000, 90000000]))
        r = ob.get("r", "F", lambda: d.circ_r(a, ws))
        ob.get("r_cs", "F", lambda: d.circ_r(Cbar=d.compute_C_and_S(a, w)[0], Sbar=d.compute_C_and_S(a, w)[1]))
        ob.get("mean", "A", lambda: d.circ_mean(a, ws))
        ob.tup(["mr_m", "mr_r"], ["A", "F"], lambda: d.circ_mean_and_r(a, ws))
        ob.get("cs", "FV", lambda: d.compute_C_and_S(a, w))
        mm = lambda v: [vlib.F(np.real(v)), vlib.F(np.imag(v))]
        ob.get("mom", "J", lambda: [mm(d.circ_moment(a, ws, p=p)) for p in (1, 2, 3, 4)])
        ob.get("momm", "J", lambda: [mm(d.circ_moment(a, ws, p=p, mean=rad(mu))) for p in (1, 2, 3)])
        ob.get("momc", "J", lambda: [mm(d.circ_moment(a, ws, p=p, centered=True)) for p in (1, 2, 3)])
        ob.tup(["cv_u", "cv_r"], ["A", "F"], lambda: d.convert_moment(d.circ_moment(a, ws, p=2)))
        ob.get("disp", "F", lambda: d.circ_dispersion(a, ws))
        ob.get("skew", "F", lambda: d.circ_skewness(a, ws))
        ob.get("kurt", "F", lambda: d.circ_kurtosis(a, ws))
        rr = r if r is not None else 0.5
        # weights that are not all equal stand for bins: bin_size=0 turns the correction off
        kw = dict(w=ws) if ws is None or len(set(st["data"]["w"])) == 1 else dict(w=ws, bin_size=0)
        ob.get("var", "F", lambda: d.circ_var(a, **kw))
        ob.get("var_r", "F", lambda: d.circ_var(r=rr))
        ob.get("avar", "F", lambda: d.angular_var(a, **kw))
        ob.get("astd", "F", lambda: d.angular_std(a, **kw))
        ob.get("std", "F", lambda: d.circ_std(a, **kw))
        ob.get("var_b", "F", lambda: d.circ_var(a, w=ws, bin_size=rad(b)))
        ob.get("std_b", "F", lambda: d.circ_std(a, w=ws, bin_size=rad(b)))
        ob.get("avar_b", "F", lambda: d.angular_var(a, w=ws, bin_size=rad(b)))
        if grouped:
            ob.get("gvar", "F", lambda: d.circ_var(a, w))
            ob.get("gstd", "F", lambda: d.circ_std(a, w))
            ob.get("gavar", "F", lambda: d.angular_var(a, w))
            ob.get("gastd", "F", lambda: d.angular_std(a, w))
        ob.get("kap", "F", lambda: d.circ_kappa(rr))
        kp = [(float(np.round(rng.uniform(0.2, 0.95), 5)), int(rng.integers(16, 200)))]
        for _ in range(6):
            kr = float(rng.choice([0.0, 0.53, 0.85, 0.7, 0.529999, 0.699999, 0.849999])) if rng.random() < 0.3 else float(np.round(rng.uniform(0, 0.98), 6))
            kp.append((kr, int(rng.choice([0, 2, 3, 8, 14, 15, 16, 40]))))
        ob.get("kp", "FV", lambda: [d.circ_kappa(x, m) if m else d.circ_kappa(x) for x, m in kp])
        ob.get("smooth", "F", lambda: d.compute_smooth_params(*kp[0]))
        ng = int(rng.integers(1, 6))
        ms = [int(v) for v in rng.integers(-vlib.T, 2 * vlib.T, ng)]
        rs = [float(v) for v in np.round(rng.random(ng), 6)]
        ob.tup(["mom_m", "mom_r"], ["A", "F"], lambda: d.circ_mean_and_r_of_means(ms=rads(ms), rs=np.array(rs)))

        class C:
            def __init__(self, m, r):
                self.mean, self.r = m, r

        ob.get("mom_same", "B", lambda: np.allclose(d.circ_mean_and_r_of_means(circs=[C(rad(m), v) for m, v in zip(ms, rs)]), d.circ_mean_and_r_of_means(ms=rads(ms), rs=rs), rtol=0, atol=1e-12, equal_nan=True))
        out.append(ob.rec({"op": st["op"], "data": st["data"], "kind": st["kind"], "mu": mu, "bin": b, "key": "", "kp": [[vlib.F(x), vlib.F(m)] for x, m in kp], "ms": ms, "rs": [vlib.F(v) for v in rs]}))
    return out


def probe(_):
    """A fully concentrated sample (a listed finding)."""
    h = [{"op": {"t": "New", "x": 0, "i": 1, "j": 1}, "data": {"a": [0, 0], "w": [1, 1]}, "kind": "probe"}]
    r = replay(h)
    r[0]["key"] = "circ_kappa(r=1)"
    return r


KINDS = {"any", "narrow", "half", "tight", "wide", "deg5", "deg", "deg30c", "two", "raw", "seam", "fine"}
OPS = {"Rotate", "Reflect", "Turn", "Wrap", "Swap", "Reverse", "Split", "Expand", "Scale", "Insert", "Remove"}


def run(ctx):
    ctx.mc("MC_Descr", consts=None if ctx.quick else {"MaxN": "4", "Lattice": "{0, 45000000, 180000000, 270000000, 350000000}"})
    n = 900 if ctx.quick else 9000
    hs = ctx.gen("GenSample", {"Kinds": KINDS, "Sizes": {1, 2, 3, 4, 5, 7, 8, 10, 14, 15, 16, 20, 25, 33, 60}, "WKinds": {0, 0, 1, 2}, "OpNames": OPS, "Depth": 5}, n, 5, salt=1)
    hs += ctx.gen("GenSample", {"Kinds": {"grouped"}, "Sizes": {1}, "WKinds": {0}, "OpNames": {"Scale"}, "Depth": 2}, n // 4, 2, salt=2)
    bs = ctx.record(replay, hs)
    bs.append(ctx.record(probe, [0])[0])
    ctx.validate("Trace_Descr", bs)


if __name__ == "__main__":
    vlib.main("C02", run)
