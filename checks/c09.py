"""C09: tests of uniformity."""
from common import *


def replay(h):
    import numpy as np
    import pycircstat2.hypothesis as hy

    out = []
    for st in h:
        w = np.array(st["data"]["w"])
        al = rads(st["data"]["a"])
        e = np.repeat(al, w)
        rng = rng_of(st)
        scale = int(rng.integers(1, 4))
        e = e[rng.permutation(e.size)]
        ob = Obs()
        ob.tup(["rr", "rz", "rp", "rpb"], ["F", "F", "F", "S"], lambda: (lambda x: (x.r, x.z, x.pval, x.bootstrap_pval))(hy.rayleigh_test(al, w)))
        ob.tup(["rze", "rpe"], ["F", "F"], lambda: (lambda x: (x.z, x.pval))(hy.rayleigh_test(alpha=list(e))))
        r0 = vlib.call(lambda: hy.rayleigh_test(al, w).r)[0]
        ob.tup(["rzs", "rps"], ["F", "F"], lambda: (lambda x: (x.z, x.pval))(hy.rayleigh_test(r=r0, n=int(w.sum()))))
        if len(w) > 1:
            ob.tup(["chi", "chip"], ["F", "F"], lambda: (lambda x: (x.chi2, x.pval))(hy.chisquare_test(w)))
        else:
            ob.o["chi"] = ob.o["chip"] = [0, 0]
        ob.tup(["mA", "mp", "m"], ["F", "F", "I"], lambda: (lambda x: (x.A, x.pval, x.m))(hy.omnibus_test(e, scale=scale)))
        ob.tup(["kv", "kp"], ["F", "F"], lambda: (lambda x: (x.V, x.pval))(hy.kuiper_test(e, n_simulation=1)))
        ob.tup(["u2", "up"], ["F", "F"], lambda: (lambda x: (x.U2, x.pval))(hy.watson_test(e, n_simulation=1)))
        ob.tup(["ru", "rpv", "rmode"], ["F", "F", "S"], lambda: (lambda x: (x.statistic, x.pval, x.mode))(hy.rao_spacing_test(e, n_simulation=9)))
        ob.tup(["ruw", "rmodew"], ["F", "S"], lambda: (lambda x: (x.statistic, x.mode))(hy.rao_spacing_test(al, w, n_simulation=2)))
        ob.tup(["gr", "gp"], ["F", "F"], lambda: (lambda x: (x.range_stat, x.pval))(hy.circ_range_test(np.mod(e, 2 * np.pi))))
        bad = [
            lambda: hy.rayleigh_test(), lambda: hy.rayleigh_test(al[:0]), lambda: hy.rayleigh_test(al, w, B=0), lambda: hy.rayleigh_test(r=0.5),
            lambda: hy.rayleigh_test(r=1.5, n=4), lambda: hy.rayleigh_test(r=-0.1, n=4), lambda: hy.rayleigh_test(r=0.5, n=0), lambda: hy.rayleigh_test(al, w + 0.5 / len(w)),
            lambda: hy.rayleigh_test(al, np.append(w, 1)), lambda: hy.rayleigh_test(al, 0 * w), lambda: hy.chisquare_test(-w - 1), lambda: hy.chisquare_test(w[:0]), lambda: hy.chisquare_test(w[None, :]),
            lambda: hy.omnibus_test(al[:0]), lambda: hy.omnibus_test(al, scale=0), lambda: hy.kuiper_test(al[:0]), lambda: hy.kuiper_test(al, n_simulation=0),
            lambda: hy.watson_test(al[:0]), lambda: hy.watson_test(al, n_simulation=0), lambda: hy.rao_spacing_test(al[:0]), lambda: hy.rao_spacing_test(al, n_simulation=0),
            lambda: hy.rao_spacing_test(al, -w), lambda: hy.rao_spacing_test(al, w + 0.5), lambda: hy.rao_spacing_test(al, np.append(w, 1)), lambda: hy.rao_spacing_test(al, 0 * w),
            lambda: hy.circ_range_test(al[:0]), lambda: hy.circ_range_test(np.append(np.mod(al, 6.0), 6.4)),
        ]
        ob.get("bad", "I", lambda: sum(0 if raises(b) else 1 for b in bad))
        if ob.o["bad"]:
            ob.o["which"] = [i for i, b in enumerate(bad) if not raises(b)]
        out.append(ob.rec({"op": st["op"], "data": st["data"], "scale": scale, "key": ""}))
    return out


def run(ctx):
    ctx.mc("MC_Unif", consts=None if ctx.quick else {"MaxN": "4"})
    q = ctx.quick
    hs = samples(ctx, 500 if q else 6000, set(range(1, 13)), wk=(0, 0, 1), depth=4)
    hs += samples(ctx, 250 if q else 3000, {14, 17, 20, 25, 32, 45}, wk=(0,), depth=3, salt=2)
    ctx.validate("Trace_Unif", ctx.record(replay, hs))


if __name__ == "__main__":
    vlib.main("C09", run)
