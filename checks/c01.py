"""C01: angle arithmetic."""
from common import *


def replay(h):
    import numpy as np
    import pycircstat2.utils as u

    out = []
    for st in h:
        ai = st["data"]["a"]
        a = rads(ai)
        rng = rng_of(st)
        ob = Obs()
        b = int(rng.integers(-2 * T, 2 * T))
        keep = a.copy()
        v = ob.get("am", "AV", lambda: u.angmod(a))
        ob.get("am_in", "B", lambda: bool(np.all((v >= 0) & (v < 2 * np.pi))))
        ob.get("am_sc", "B", lambda: all(abs(float(u.angmod(float(x))) - float(y)) < 1e-12 and 0 <= u.angmod(float(x)) < 2 * np.pi for x, y in zip(a, v)))
        ob.get("am_keep", "B", lambda: bool(np.array_equal(a, keep)))
        span = int(rng.choice([T, T // 2, T // 4, 100000000, 57295780]))
        lo = int(rng.choice([0, -T // 2, -T // 4, 12345678, T // 2]))
        bnd = [rad(lo), rad(lo + span)]
        w = ob.get("ab", "AV", lambda: u.angmod(a, bounds=bnd))
        ob.get("ab_in", "B", lambda: bool(np.all((w >= bnd[0] - 1e-9) & (w < bnd[1]))))
        ob.get("ab_bad", "B", lambda: raises(lambda: u.angmod(a, bounds=[1.0, 1.0])) and raises(lambda: u.angmod(a, bounds=[2.0, 1.0])) and raises(lambda: u.angmod(a, bounds=[0, 1, 2])))
        k = float(rng.choice([360, 24, 12, 7, 365, 60, 400, 1, 2 * np.pi]))
        us = np.round(rng.uniform(-500, 900, 5), 4)
        us = np.array([vlib.unF(F(x)) for x in us])
        ob.get("d2r", "FV", lambda: u.data2rad(us, k))
        ob.get("r2d", "FV", lambda: u.rad2data(us, k))
        ob.get("rt", "FV", lambda: [u.rad2data(u.data2rad(float(x), k), k) for x in us])
        ob.get("r2n", "B", lambda: bool(np.array_equal(u.rad2data(us, k=None), us)) and abs(u.data2rad(90.0) - np.pi / 2) < 1e-12 and abs(u.rad2data(np.pi) - 180) < 1e-9)
        hm = [[int(rng.integers(0, 24)), int(rng.integers(0, 60))] for _ in range(4)]
        sep = str(rng.choice([":", ".", "-"]))
        ob.get("t2f", "FV", lambda: u.time2float(np.array(["%02d%s%02d" % (x, sep, y) for x, y in hm]), sep=sep))
        ob.get("ad", "AV", lambda: u.angular_distance(a, rad(b)))
        ob.get("ad_sym", "B", lambda: np.allclose(u.angular_distance(list(a), rad(b)), u.angular_distance(a, rad(b)), rtol=0, atol=1e-12)
               and all(abs(float(u.angular_distance(rad(b), float(x))) - float(u.angular_distance(float(x), rad(b)))) < 1e-9 for x in a))
        arcs = []
        for _ in range(6):
            t = [int(x) for x in rng.integers(-T, 2 * T, 3)]
            m = rng.random()
            if m < 0.2:
                t[0] = t[1]
            elif m < 0.4:
                t[0] = t[2]
            elif m < 0.5:
                t[2] = t[1]
            elif m < 0.6:
                t = [int(x) * 30000000 for x in rng.integers(-12, 24, 3)]
            arcs.append(t)
        ob.get("wr", "IV", lambda: [int(u.is_within_circular_range(*[rad(x) for x in t])) for t in arcs])
        deg = np.array(ai) / 1e6
        ob.get("rotd", "AV", lambda: np.deg2rad(u.rotate_data(deg, b / 1e6, unit="degree")))
        ob.get("rotr", "AV", lambda: u.rotate_data(a, rad(b)))
        ob.get("roth", "AV", lambda: u.rotate_data(deg / 15, b / 15e6, unit="hour") * np.pi / 12)
        ob.get("rot_bad", "B", lambda: raises(lambda: u.rotate_data(a, 1.0, unit="grad")))
        kap = [float(np.round(x, 5)) for x in (rng.uniform(0, 3), rng.uniform(3, 50), rng.uniform(50, 300))] + [0.0]
        ob.get("a1", "FV", lambda: [u.A1(x) for x in kap])
        ob.get("a1_ok", "B", lambda: bool(np.all(np.abs(u.A1(np.array(kap)) - [u.A1(x) for x in kap]) < 1e-15) and np.all(u.A1(np.array(kap)) < 1)))
        rr = [float(np.round(x, 5)) for x in (rng.uniform(0, 0.53), rng.uniform(0.53, 0.85), rng.uniform(0.85, 0.98))] + [float(rng.choice([0.0, 0.53, 0.85, 0.529999, 0.849999]))]
        ob.get("a1i", "FV", lambda: [u.A1inv(x) for x in rr])
        ps = [float(x) for x in (0.001, 0.01, 0.05, 0.1, 0.0, 1.0)] + [float(np.round(10 ** rng.uniform(-5, 0), 7)) for _ in range(4)]
        ob.get("sig", "J", lambda: [u.significance_code(x) for x in ps])
        out.append(ob.rec({"op": st["op"], "data": st["data"], "b": b, "lo": lo, "span": span, "k": F(k), "u": FV(us), "hm": hm, "arcs": arcs, "kap": FV(kap), "rr": FV(rr), "ps": FV(ps), "key": ""}))
    return out


def run(ctx):
    ctx.mc("MC_Angle")
    hs = samples(ctx, 700 if ctx.quick else 8000, {1, 2, 5, 9, 20}, depth=4, ops=OPS - {"Scale", "Split", "Expand"})
    hs += samples(ctx, 200 if ctx.quick else 2000, {6, 12}, kinds={"deg5", "deg", "raw"}, depth=4, ops={"Turn", "Wrap", "Rotate"}, salt=2)
    bs = ctx.record(replay, hs)
    ctx.validate("Trace_Angle", bs)


if __name__ == "__main__":
    vlib.main("C01", run)
