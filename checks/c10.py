"""C10: simulated p-values and random state."""
from common import *


def token(g):
    import zlib

    return zlib.crc32(repr(g).encode()) % 1000000007


def call(hy, t, a, b, w, bins, B, seed):
    x = {
        "rayleigh": lambda: hy.rayleigh_test(a, B=B, seed=seed),
        "kuiper": lambda: hy.kuiper_test(a, n_simulation=B, seed=seed),
        "watson": lambda: hy.watson_test(a, n_simulation=B, seed=seed),
        "rao": lambda: hy.rao_spacing_test(a, n_simulation=B, seed=seed),
        "raow": lambda: hy.rao_spacing_test(bins, w, n_simulation=B, seed=seed),
        "art": lambda: hy.angular_randomisation_test([a, b], n_simulation=B, seed=seed),
    }[t]()
    if t == "rayleigh":
        return x.z, (x.pval if B == 1 else x.bootstrap_pval), B, ""
    if t == "kuiper":
        return x.V, x.pval, x.n_simulation, x.mode
    if t == "watson":
        return x.U2, x.pval, x.n_simulation, x.mode
    return x.statistic, x.pval, x.n_simulation, "" if t == "art" else x.mode


def replay_history(item):
    import numpy as np
    import pycircstat2.hypothesis as hy

    h, k = item
    rng = np.random.default_rng([k, 77])
    n = int(rng.integers(2, 12))
    a = rng.vonmises(1, rng.choice([0.1, 1, 3]), n)
    b = rng.vonmises(2, 1, int(rng.integers(2, 8)))
    m = int(rng.integers(3, 10))
    bins = np.arange(m) * 2 * np.pi / m
    w = rng.integers(0, 3, m) + np.eye(m, dtype=int)[0]
    np.random.seed(0)
    gens = [np.random.default_rng(1), np.random.default_rng(2)]
    out = []
    for i, st in enumerate(h):
        c = st["c"]
        ob = Obs()
        if c["k"] == "Call":
            src = c["src"]
            seed = int(src[1]) if src[0] == "seed" else gens[src[1] - 1]
            ob.o["before"] = 0 if src[0] == "seed" else token(seed.bit_generator.state)
            ob.tup(["stat", "p", "nsim", "mode"], ["F", "F", "I", "S"], lambda: call(hy, c["t"], a, b, w, bins, c["B"], seed))
        elif c["k"] == "Fresh":
            gens[c["g"] - 1] = np.random.default_rng(c["s"])
        elif c["k"] == "Draw":
            gens[c["g"] - 1].random(3)
        elif c["k"] == "Global":
            np.random.seed(c["s"])
        else:
            np.random.random(3)
        ob.o["glob"] = token(tuple(map(str, np.random.get_state()[1:3])) + (np.random.get_state()[1].tobytes(),))
        ob.o["g1"] = token(gens[0].bit_generator.state)
        ob.o["g2"] = token(gens[1].bit_generator.state)
        out.append(ob.rec({"i": i + 1, "c": c, "a": AV(a), "b": AV(b), "w": IV(w), "key": ""}))
    return out


def replay_p(h):
    import numpy as np
    import pycircstat2.hypothesis as hy

    out = []
    for st in h:
        ia = st["data"]["a"]
        a = rads(ia)
        n = len(a)
        rng = rng_of(st)
        B = 1500
        seed = int(rng.integers(0, 1000))
        c0 = float(rng.uniform(0, 6))
        tight = a[0] + 0 * a
        even = c0 + np.arange(n) * 2 * np.pi / n
        sets = [a, tight, even, rng.vonmises(0, 2, n), rng.uniform(0, 7, n), c0 + (a - c0) * 0.3]
        ob = Obs()
        for nm, f in [
            ("ray", lambda x, B: (lambda r: (r.z, r.bootstrap_pval))(hy.rayleigh_test(x, B=B, seed=seed))),
            ("kui", lambda x, B: (lambda r: (r.V, r.pval))(hy.kuiper_test(x, n_simulation=B, seed=seed))),
            ("wat", lambda x, B: (lambda r: (r.U2, r.pval))(hy.watson_test(x, n_simulation=B, seed=seed))),
            ("rao", lambda x, B: (lambda r: (r.statistic, r.pval))(hy.rao_spacing_test(x, n_simulation=B, seed=seed))),
        ]:
            ob.get(nm, "FV", lambda: [f(x, B)[1] for x in sets[:3]])
            ob.get("o" + nm, "J", lambda: [[F(v) for v in f(x, 40)] for x in sets])
        m = max(3, n)
        k6 = int(rng.integers(6, 11))
        bins = np.arange(m) * 2 * np.pi / m
        w = rng.integers(0, 3, m)
        w[0] += 1
        e = np.repeat(bins, w)
        ob.get("gp", "FV", lambda: [hy.rao_spacing_test(np.arange(k6) * 2 * np.pi / k6, np.full(k6, 2), n_simulation=B, seed=seed).pval, hy.rao_spacing_test(e, n_simulation=B, seed=seed + 1).pval,
                                    hy.rao_spacing_test(bins, w, kappa=1e-3, n_simulation=B, seed=seed + 2).pval])
        art = []
        if 4 <= n <= 8:
            k = int(rng.integers(2, n - 1))
            art = [ia, k]
            ob.get("art", "FV", lambda: (lambda r, s: [r.statistic, r.pval, s.statistic])(
                hy.angular_randomisation_test([a[:k], a[k:]], n_simulation=B, seed=seed), hy.angular_randomisation_test([a[k:], a[:k]], n_simulation=3)))
        out.append(ob.rec({"op": st["op"], "data": st["data"], "B": B, "art": art, "key": ""}))
    return out


def run(ctx):
    q = ctx.quick
    ctx.mc("MC_Sim", consts=None if q else {"MaxLen": "5"})
    hs = ctx.gen("GenSim", {"Depth": 14, "Bs": {1, 2, 9, 19}}, 800 if q else 8000, 14)
    ctx.validate("Trace_Sim", ctx.record(replay_history, [(h, i + 1000000 * ctx.seed) for i, h in enumerate(hs)]))
    hs = samples(ctx, 250 if q else 2500, set(range(2, 10)) | {12, 20}, depth=1, salt=3)
    ctx.validate("Trace_SimP", ctx.record(replay_p, hs))


if __name__ == "__main__":
    vlib.main("C10", run)
