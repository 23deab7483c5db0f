"""C14: change point of a sequence; homogeneity of groups."""
from common import *


def replay_seq(h):
    import pycircstat2.hypothesis as hy

    out = []
    for st in h:
        a = rads(st["data"]["a"])
        ob = Obs()
        ob.o["refused"] = 0
        if a.size < 4:
            ob.get("refused", "I", lambda: 1 if raises(lambda: hy.change_point_test(a)) else 0)
        else:
            ob.tup(["n", "rho", "rmax", "kr", "rave", "tmax", "kt", "tave"], list("IFFIFFIF"), lambda: (lambda x: (x.n, x.rho, x.rmax, x.k_r, x.rave, x.tmax, x.k_t, x.tave))(hy.change_point_test(a)))
        out.append(ob.rec({"op": st["op"], "data": st["data"], "key": ""}))
    return out


def replay_hom(h):
    import numpy as np
    import pycircstat2.hypothesis as hy

    out = []
    for st in h:
        S = [rads(np.repeat(g["a"], g["w"])) for g in st["s"]]
        rng = rng_of_groups(st)
        S = [s[rng.permutation(s.size)] for s in S]
        ob = Obs()
        level = float(rng.choice([0.01, 0.05, 0.2]))
        ob.o["level"] = F(level)
        if min(s.size for s in S) >= 2:
            ob.tup(["Hp", "pp", "rp", "Hd", "pd", "rd"], list("FFIFFI"), lambda: (lambda x: (x.H_polar, x.pval_polar, int(x.reject_polar), x.H_disp, x.pval_disp, int(x.reject_disp)))(hy.rao_homogeneity_test(S, alpha=level)))
        ob.get("bad", "I", lambda: sum(0 if raises(b) else 1 for b in [lambda: hy.rao_homogeneity_test(tuple(S)), lambda: hy.rao_homogeneity_test([list(s) for s in S]), lambda: hy.rao_homogeneity_test(S[0])]))
        out.append(ob.rec({"op": st["op"], "s": st["s"], "key": ""}))
    return out


def run(ctx):
    ctx.mc("MC_Sequence", consts=None if ctx.quick else {"MaxN": "6", "Lattice": "{0, 35000000, 110000000, 170000000, 250000000}"})
    q = ctx.quick
    hs = samples(ctx, 350 if q else 4000, set(range(1, 13)) | {20, 35}, ops={"Rotate", "Reflect", "Turn", "Wrap", "Swap", "Reverse", "Insert", "Remove"})
    ctx.validate("Trace_Sequence", ctx.record(replay_seq, hs))
    gs = groups(ctx, 350 if q else 4000, {2, 3, 4, 5}, set(range(2, 12)) | {30}, wk=(0, 0, 1))
    ctx.validate("Trace_Homog", ctx.record(replay_hom, gs))


if __name__ == "__main__":
    vlib.main("C14", run)
