"""C12: rank tests of two and more samples."""
from common import *


def replay(h):
    import numpy as np
    import pycircstat2.hypothesis as hy

    out = []
    for st in h:
        S = [rads(np.repeat(g["a"], g["w"])) for g in st["s"]]
        rng = rng_of_groups(st)
        S = [s[rng.permutation(s.size)] for s in S]
        ob = Obs()
        objs, ex = vlib.call(lambda: group_objects(st))
        if ex:
            ob.exc.append("objects")
            objs = S
        v = rad(st["ang"])
        angs = [int(x) for x in rng.integers(0, 72, 2) * 5000000]
        two = len(S) == 2
        ob.tup(["ww", "wp", "wdf"], ["F", "F", "I"], lambda: (lambda x: (x.W, x.pval, x.df))(hy.wheeler_watson_test(S)))
        ob.get("wwo", "F", lambda: hy.wheeler_watson_test(objs).W)
        for k in ("u2", "up", "u2o", "wu", "wup", "wu2", "wuo", "art", "artp", "arto"):
            ob.o[k] = vlib.FNAN
        if two:
            ob.tup(["u2", "up"], ["F", "F"], lambda: (lambda x: (x.U2, x.pval))(hy.watson_u2_test([list(s) for s in S])))
            ob.get("u2o", "F", lambda: hy.watson_u2_test(objs).U2)
            ob.tup(["wu", "wup"], ["F", "F"], lambda: (lambda x: (x.U, x.pval))(hy.wallraff_test(S, angle=v)))
            ob.get("wu2", "F", lambda: hy.wallraff_test(S, angle=[rad(x) for x in angs]).U)
            ob.get("wuo", "F", lambda: hy.wallraff_test(objs, angle=v).U)
            ob.tup(["art", "artp"], ["F", "F"], lambda: (lambda x: (x.statistic, x.pval))(hy.angular_randomisation_test(S, n_simulation=4)))
            ob.get("arto", "F", lambda: hy.angular_randomisation_test(objs, n_simulation=1).statistic)
        bad = [
            lambda: hy.wheeler_watson_test([]), lambda: hy.wheeler_watson_test(S[:1]), lambda: hy.watson_u2_test(S[:1]), lambda: hy.watson_u2_test(S + S), lambda: hy.wallraff_test(S + S),
            lambda: hy.wallraff_test(S[:2], angle=[0.0, 1.0, 2.0]), lambda: hy.angular_randomisation_test(S[:1]), lambda: hy.angular_randomisation_test(S[:2], n_simulation=0),
            lambda: hy.watson_u2_test([S[0], S[0][:0]]), lambda: hy.watson_u2_test([S[0], np.array([np.nan, 1.0])]), lambda: hy.wheeler_watson_test([S[0], S[0][None, :]]),
            lambda: hy.wheeler_watson_test(5),
        ]
        ob.get("bad", "I", lambda: sum(0 if raises(b) else 1 for b in bad))
        if ob.o["bad"]:
            ob.o["which"] = [i for i, b in enumerate(bad) if not raises(b)]
        out.append(ob.rec({"op": st["op"], "s": st["s"], "ang": st["ang"], "angs": angs, "key": ""}))
    return out


def run(ctx):
    ctx.mc("MC_Ranks", consts=None if ctx.quick else {"Lattice": "{0, 40000000, 80000000, 120000000, 170000000, 260000000, 300000000}"})
    q = ctx.quick
    hs = groups(ctx, 450 if q else 5000, {2}, set(range(1, 13)), wk=(0, 0, 1))
    hs += groups(ctx, 250 if q else 2500, {2, 3, 4}, set(range(1, 9)) | {15}, wk=(0, 0, 1), kinds=KINDS - {"deg5", "deg30c"}, salt=2)
    ctx.validate("Trace_Ranks", ctx.record(replay, hs))


if __name__ == "__main__":
    vlib.main("C12", run)
