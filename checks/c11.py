"""C11: tests against a specified direction."""
from common import *


def replay(h):
    import numpy as np
    import pycircstat2.descriptive as d
    import pycircstat2.hypothesis as hy

    out = []
    ang = 0
    for st in h:
        w = np.array(st["data"]["w"])
        ia = st["data"]["a"]
        al = rads(ia)
        e = np.repeat(al, w)
        rng = rng_of(st)
        op = st["op"]
        if op["t"] == "New":
            k = int(rng.integers(0, 5))
            ang = int([rng.integers(0, T), rng.choice(ia), rng.integers(0, 72) * 5000000, rng.choice(ia) + 30000000 * rng.integers(0, 12),
                       rng.choice(ia) + 90000000 * rng.integers(0, 4) + rng.choice([-1, 1]) * int(10 ** rng.uniform(1, 6.5))][k])
        elif op["t"] == "Rotate":
            ang = (ang + op["x"]) % T
        elif op["t"] == "Reflect":
            ang = -ang
        g = rad(ang)
        e = e[rng.permutation(e.size)]
        ob = Obs()
        v3 = lambda x: (x.V, x.u, x.pval)  # noqa: E731
        ob.tup(["V", "Vu", "Vp"], ["F", "F", "F"], lambda: v3(hy.V_test(g, al, w)))
        ob.tup(["Ve", "Vue", "Vpe"], ["F", "F", "F"], lambda: v3(hy.V_test(angle=g, alpha=list(e))))
        m, r = d.circ_mean_and_r(al, w)
        ob.tup(["Vs", "Vus", "Vps"], ["F", "F", "F"], lambda: v3(hy.V_test(g, mean=m if np.isfinite(m) else 0.0, r=min(r, 1.0), n=int(w.sum()))))
        ci, ex = vlib.call(lambda: AV(d.circ_mean_ci(alpha=al, w=w)))
        ob.o["ci"] = [] if ex == "ValueError" else ci
        rr, ex = vlib.call(lambda: hy.one_sample_test(g, al, w))
        ob.o["rej"] = 2 if ex == "ValueError" else int(rr.reject)
        ob.o["rci"] = [] if ex == "ValueError" else AV(rr.ci)
        ivs = [[int(x), int(x + y)] for x, y in zip(rng.integers(0, T, 3), rng.integers(5000000, 355000000, 3))]
        ob.get("riv", "IV", lambda: [int(hy.one_sample_test(g, lb=rad(x), ub=rad(y)).reject) for x, y in ivs])
        ob.get("rang", "A", lambda: hy.one_sample_test(g, lb=0.0, ub=1.0).angle)
        ob.tup(["C", "Cp"], ["I", "F"], lambda: (lambda x: (x.C, x.pval))(hy.batschelet_test(g, e)))
        ob.tup(["n1", "n2", "ne", "bp"], ["I", "I", "I", "F"], lambda: (lambda x: (x.n1, x.n2, x.n_eff, x.pval))(hy.binomial_test(e, g)))
        if len(e) > 1:
            ob.tup(["ss", "sp"], ["F", "F"], lambda: (lambda x: (x.statistic, x.pval))(hy.symmetry_test(e, median=g)))
            md, ex = vlib.call(lambda: d.circ_median(e))
            ob.get("sdef", "B", lambda: (not np.isfinite(md)) or (lambda x, y: np.allclose([x.statistic, x.pval], [y.statistic, y.pval], rtol=1e-9, equal_nan=True))(hy.symmetry_test(e), hy.symmetry_test(e, median=md)))
        else:
            ob.o["ss"] = ob.o["sp"] = vlib.FNAN
            ob.o["sdef"] = 1
        bad = [
            lambda: hy.V_test(g), lambda: hy.V_test(g, al[:0]), lambda: hy.V_test(g, al, np.append(w, 1)), lambda: hy.V_test(g, al, 0 * w), lambda: hy.V_test(g, mean=0.0, r=1.5, n=4),
            lambda: hy.V_test(g, mean=0.0, r=0.5, n=0), lambda: hy.one_sample_test(g), lambda: hy.one_sample_test(g, al[:0]), lambda: hy.one_sample_test(g, al, np.append(w, 1)),
            lambda: hy.batschelet_test(g, al[:0]), lambda: hy.symmetry_test(al[:0]), lambda: hy.binomial_test(al[:0], g), lambda: hy.binomial_test(al, np.array([g, g])),
        ]
        ob.get("bad", "I", lambda: sum(0 if raises(b) else 1 for b in bad))
        out.append(ob.rec({"op": op, "data": st["data"], "ang": ang, "ivs": ivs, "key": ""}))
    return out


def run(ctx):
    ctx.mc("MC_Direction", consts=None if ctx.quick else {"MaxN": "5"})
    q = ctx.quick
    hs = samples(ctx, 500 if q else 6000, set(range(1, 14)), wk=(0, 0, 1), depth=4)
    hs += samples(ctx, 300 if q else 3000, {14, 16, 18, 20, 22, 51, 60}, wk=(0,), depth=3, salt=2, ops=OPS - {"Scale", "Split", "Expand", "Insert"})
    ctx.validate("Trace_Direction", ctx.record(replay, hs))


if __name__ == "__main__":
    vlib.main("C11", run)
