"""C13: parametric tests of several samples."""
from common import *


def table(x):
    import numpy as np

    t = x.anova_table
    big = "SS" in t.columns
    st = [F(v) for v in t["F" if big else "chi2"].to_numpy()[:3]]
    return [1 if big else 0, IV(np.round(t["DoF"].to_numpy().astype(float), 9)), FV(t["SS"].to_numpy().astype(float)) if big else [], st, FV(np.array(x.p_values, dtype=float))]


def replay(h):
    import numpy as np
    import pycircstat2.hypothesis as hy
    import pycircstat2.descriptive as de
    import pycircstat2.utils as ut

    out = []
    for st in h:
        S = [rads(np.repeat(g["a"], g["w"])) for g in st["s"]]
        rng = rng_of_groups(st)
        S = [s[rng.permutation(s.size)] for s in S]
        k = len(S)
        N = sum(s.size for s in S)
        ob = Obs()
        NAN = vlib.FNAN
        ob.o.update(wF=NAN, wp=NAN, wdf1=-1, wdf2=-1, wk=-1, wN=-1, wFo=NAN, cF=NAN, cp=NAN, cdf1=-1, cdf2=-1, cFs=NAN, cps=NAN, wrefused=0, cmrefused=0,
                    hbig=-1, hdf=[], hSS=[], hF=[NAN] * 3, hp=[NAN] * 3, hpl=[NAN] * 3, hpx=[NAN] * 3, gSS=[], gF=[NAN] * 3, gp=[NAN] * 3, hkk=NAN)
        objs, ex = vlib.call(lambda: group_objects(st))
        if ex:
            ob.exc.append("objects")
            objs = S
        kap = float(rng.choice([0.5, 1.0, 2.5, 8.0]))
        ob.o["kap"] = F(kap)
        if N <= k:
            ob.get("wrefused", "I", lambda: 1 if raises(lambda: hy.watson_williams_test(S)) else 0)
        else:
            ob.tup(["wF", "wp", "wdf1", "wdf2", "wk", "wN"], list("FFIIII"), lambda: (lambda x: (x.F, x.pval, x.df_between, x.df_within, x.k, x.N))(hy.watson_williams_test([list(s) for s in S])))
            ob.get("wFo", "F", lambda: hy.watson_williams_test(objs).F)
            ob.tup(["amu", "amuall", "ak", "aR", "aRall", "adf", "aF", "ap", "aSS", "aMS"], ["AV", "A", "F", "FV", "F", "IV", "F", "F", "FV", "FV"],
                   lambda: (lambda x: (x.mu, x.mu_all, x.kappa, x.R, x.R_all, x.df, x.statistic, x.pval, x.SS, x.MS))(hy.circ_anova(S)))
            ob.get("aFg", "F", lambda: hy.circ_anova(S, method="F-test", kappa=kap).statistic)
            ob.tup(["aF0", "ap0"], ["F", "F"], lambda: (lambda x: (x.statistic, x.pval))(hy.circ_anova(S, f_mod=False)))
            ob.tup(["lst", "lp", "ldf"], ["F", "F", "I"], lambda: (lambda x: (x.statistic, x.pval, x.df))(hy.circ_anova(S, method="LRT")))
            ob.get("lstg", "F", lambda: hy.circ_anova(S, method="LRT", kappa=kap).statistic)
            if min(s.size for s in S) >= 2:
                # refusing groups without any spread is part of the function
                def ek():
                    try:
                        x = hy.equal_kappa_test(S)
                    except ValueError as e:
                        if "Degenerate" not in str(e):
                            raise
                        return [float("nan")] * k, [de.circ_r(s) for s in S], k - 1, float("nan"), float("nan"), "large"
                    return x.kappa, x.rho, x.df, x.statistic, x.pval, x.regime
                ob.tup(["ekk", "ekr", "ekdf", "ekst", "ekp", "ekreg"], ["FV", "FV", "I", "F", "F", "S"], ek)
                if ob.o.get("ekst") == vlib.FNAN and ob.o.get("ekreg") == "large":
                    ob.get("ekk", "FV", lambda: [de.circ_kappa(de.circ_r(s)) for s in S])
            else:
                ob.get("ekrefused", "I", lambda: 1 if raises(lambda: hy.equal_kappa_test(S)) else 0)
                ob.o.update(ekk=[F(de.circ_kappa(de.circ_r(s))) for s in S], ekr=[F(de.circ_r(s)) for s in S], ekdf=k - 1, ekst=NAN, ekp=NAN, ekreg="none")
                if ob.o["ekrefused"] != 1:
                    ob.exc.append("equal kappa of a single observation")
        pooled = np.hstack(S)
        med, _ = vlib.call(lambda: float(de.circ_median(pooled)))
        ob.o["med"] = A(med)
        ob.o["zeros"] = int(np.sum(np.round(ut_dist(pooled, med), 10) == 0)) if med is not None else 0
        level = float(rng.choice([0.01, 0.05, 0.2]))
        ob.o["level"] = F(level)
        v, ex = vlib.call(lambda: hy.common_median_test(S, alpha=level))
        if ex == "ValueError":
            ob.o.update(cmrefused=1, cm=NAN, cmp=NAN, cmrej=-1, cmmed=-1)
        elif ex:
            ob.exc.append("common median " + ex)
        else:
            ob.o.update(cm=F(v.statistic), cmp=F(v.pval), cmrej=int(v.reject), cmmed=A(v.common_median))
        if k == 2 and min(s.size for s in S) >= 2:
            def ct(a, b):
                try:
                    x = hy.concentration_test(a, b)
                except ValueError as e:
                    if "Degenerate" not in str(e):
                        raise
                    return float("nan"), float("nan"), len(a) - 1, len(b) - 1
                return x.f_stat, x.pval, x.df1, x.df2
            ob.tup(["cF", "cp", "cdf1", "cdf2"], list("FFII"), lambda: ct(*S))
            ob.tup(["cFs", "cps"], list("FF"), lambda: ct(S[1], S[0])[:2])
        p = st["shape"]
        q = k // p if p else 0
        if p:
            a = pooled
            ip = np.concatenate([np.full(s.size, i // q) for i, s in enumerate(S)])
            iq = np.concatenate([np.full(s.size, i % q) for i, s in enumerate(S)])
            o = rng.permutation(a.size)
            ob.tup(["hbig", "hdf", "hSS", "hF", "hp"], ["I", "IV", "J", "J", "J"], lambda: table(hy.harrison_kanji_test(a[o], ip[o], iq[o])))
            la, lb = rng.permutation(["u", "v", "w"])[:p], rng.permutation(7)[:q]
            ob.get("hpl", "FV", lambda: hy.harrison_kanji_test(a, la[ip], lb[iq], fn=["x", "y"]).p_values)
            ob.get("hpx", "FV", lambda: hy.harrison_kanji_test(a, iq, ip).p_values)
            if ob.o.get("hbig") == 1:
                def tb():
                    t = hy.harrison_kanji_test(a, ip, iq, inter=False)
                    return [FV(t.anova_table["SS"].to_numpy().astype(float)), FV(t.anova_table["F"].to_numpy().astype(float)[:3]), FV(np.array(t.p_values, dtype=float))]
                ob.tup(["gSS", "gF", "gp"], ["J", "J", "J"], tb)
        z = np.array([1.0, 1.2, 0.9])
        bad = [
            lambda: hy.watson_williams_test(S[:1]), lambda: hy.watson_williams_test([]), lambda: hy.watson_williams_test([z, z[:0]]), lambda: hy.watson_williams_test([z, [np.nan]]),
            lambda: hy.circ_anova(S[:1]), lambda: hy.circ_anova(S, method="f"), lambda: hy.equal_kappa_test(S[:1]), lambda: hy.equal_kappa_test([z, z[:1]]), lambda: hy.equal_kappa_test([z, z[:0]]),
            lambda: hy.common_median_test(S[:1]), lambda: hy.common_median_test([z, z[:0]]), lambda: hy.common_median_test(S, alpha=0.0), lambda: hy.common_median_test(S, alpha=1.0),
            lambda: hy.concentration_test(z, z[:1]), lambda: hy.concentration_test(z[:1], z), lambda: hy.concentration_test(z, np.array([1.0, 1.0])),
            lambda: hy.equal_kappa_test([z, np.array([1.0, 1.0, 1.0])]),
        ]
        ob.get("bad", "I", lambda: sum(0 if raises(b) else 1 for b in bad))
        if ob.o["bad"]:
            ob.o["which"] = [i for i, b in enumerate(bad) if not raises(b)]
        out.append(ob.rec({"op": st["op"], "s": st["s"], "p": p, "q": q, "key": ""}))
    return out


def ut_dist(a, m):
    import numpy as np

    return np.angle(np.exp(1j * (a - m)))


def run(ctx):
    ctx.mc("MC_Anova", consts=None if ctx.quick else {"Lattice": "{0, 40000000, 90000000, 130000000, 260000000, 310000000}"})
    q = ctx.quick
    hs = groups(ctx, 260 if q else 3000, {2, 3, 4}, set(range(1, 11)) | {16}, wk=(0, 0, 1))
    hs += groups(ctx, 200 if q else 2000, {4, 6, 9}, set(range(1, 7)), kinds={"narrow", "half", "tight", "wide", "deg5", "deg30c", "fine", "seam"}, modes=("shared", "near", "near", "free"), salt=2)
    for i, h in enumerate(hs):
        k = len(h[0]["s"])
        for st in h:
            st["shape"] = {4: 2, 6: 2 + i % 2, 9: 3}.get(k, 0)
    ctx.validate("Trace_Anova", ctx.record(replay, hs))


if __name__ == "__main__":
    vlib.main("C13", run)
