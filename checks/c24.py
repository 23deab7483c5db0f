"""C24: random variates follow their law, lie on the circle and obey their seed."""
from common import *


def replay(h):
    import math
    import warnings
    import numpy as np

    warnings.simplefilter("ignore")
    tp = 2 * math.pi
    same = lambda a, b: type(a) is type(b) and np.shape(a) == np.shape(b) and bool(np.array_equal(a, b))
    # the whole history with one generator, twice: the generator's state is all there is
    root = hash_ints(h[0]["xs"]) % 2**31

    def walk():
        g = np.random.default_rng(root)
        return [law_args(s["law"])[0].rvs(*law_args(s["law"])[1], size=3 + i, random_state=g) for i, s in enumerate(h)]

    first, _ = vlib.call(walk)
    out = []
    for i, st in enumerate(h):
        d, p = law_args(st["law"])
        f = st["law"]["f"]
        g = rng_of_law(st)
        seed = int(g.integers(0, 2**31))
        n = (4000 if f == "katojones" else 30000) if i == 0 else 3000
        grid = sorted(set(st["xs"]) | {k * 45000000 for k in range(1, 8)})
        ob = Obs()
        s0 = np.random.get_state()
        x, e = vlib.call(lambda: np.asarray(d.rvs(*p, size=n, random_state=seed), float), limit=60)
        if x is None:
            x = np.zeros(0)
            ob.get("total", "I", lambda: (_ for _ in ()).throw(RuntimeError(e)))
        else:
            ob.get("total", "I", lambda: x.size)
        ob.get("counts", "IV", lambda: [int(c) for c in np.searchsorted(np.sort(x), rads(grid), side="right")])
        # wrapped normal laws next to rho = 1 aside, variates are continuous: hardly any two agree
        ob.get("distinct", "B", lambda: np.unique(x).size > .99 * x.size)
        ob.get("range", "B", lambda: x.size > 0 and bool(np.all(np.isfinite(x)) and np.all((x >= 0) & (x < tp))))

        def shapes():
            m = 0
            for s, w in ((None, ()), (1, (1,)), (0, (0,)), ((2, 3), (2, 3)), ((2, 0), (2, 0)), ([2, 2], (2, 2)), (np.int64(3), (3,))):
                v = d.rvs(*p, size=s, random_state=seed)
                m += not (np.shape(v) == w and np.all((np.asarray(v) >= 0) & (np.asarray(v) < tp)))
            return m

        ob.get("shapes", "I", shapes)
        ob.get("seed", "B", lambda: all(same(d.rvs(*p, size=s, random_state=k), d.rvs(*p, size=s, random_state=k)) for s in (None, 5, (2, 2)) for k in (0, seed)))
        ob.get("differ", "B", lambda: not same(d.rvs(*p, size=5, random_state=seed), d.rvs(*p, size=5, random_state=seed + 1)))

        def advance():
            r = np.random.default_rng(seed)
            a = d.rvs(*p, size=4, random_state=r)
            b = d.rvs(*p, size=4, random_state=r)
            r2 = np.random.default_rng(seed)
            c = d.rvs(*p, size=4, random_state=r2)
            st2 = r2.bit_generator.state
            b2 = d.rvs(*p, size=4, random_state=r2)
            r3 = np.random.default_rng(1)
            r3.bit_generator.state = st2
            return same(a, c) and not same(a, b) and same(b, b2), same(d.rvs(*p, size=4, random_state=r3), b2)

        ob.get("advance", "B", lambda: advance()[0])
        ob.get("gen", "B", lambda: advance()[1])

        def legacy():
            r, r2 = np.random.RandomState(seed), np.random.RandomState(seed)
            a, b = d.rvs(*p, size=4, random_state=r), d.rvs(*p, size=4, random_state=r)
            return same(a, d.rvs(*p, size=4, random_state=r2)) and same(b, d.rvs(*p, size=4, random_state=r2)) and not same(a, b)

        ob.get("legacy", "B", legacy)
        ob.get("frozen", "B", lambda: same(d(*p).rvs(size=5, random_state=seed), d.rvs(*p, size=5, random_state=seed)))
        s1 = np.random.get_state()
        ob.get("glob", "B", lambda: s0[2] == s1[2] and bool(np.array_equal(s0[1], s1[1])) and s0[3:] == s1[3:])

        def own():
            # a seed given with the call leaves the object's own stream where it was
            old = d._random_state
            try:
                d.random_state = seed
                a = [d.rvs(*p, size=3), d.rvs(*p, size=3)]
                d.random_state = seed
                d.rvs(*p, size=2, random_state=11)
                b = [d.rvs(*p, size=3)]
                d.rvs(*p, size=2, random_state=7)
                d.rvs(*p, size=2, random_state=np.random.default_rng(7))
                b.append(d.rvs(*p, size=3))
            finally:
                d._random_state = old
            return all(same(u, v) for u, v in zip(a, b))

        ob.get("own", "B", own)
        ob.get("again", "B", lambda: first is not None and all(same(u, v) for u, v in zip(first, walk())))
        out.append(ob.rec({"op": st["op"], "law": st["law"], "grid": grid, "n": n, "key": ""}))
    return out


def run(ctx):
    hs = laws(ctx, 450 if ctx.quick else 2400, ops=("Other", "Family", "Turn", "Nudge", "Back"), depth=2, salt=24)
    ctx.validate("Trace_Rvs", ctx.record(replay, hs))


if __name__ == "__main__":
    vlib.main("C24", run)
