"""C15: correlation of paired directions, and of directions and numbers."""
from common import *


def replay(h):
    import numpy as np
    from pycircstat2 import Circular
    from pycircstat2.correlation import circ_corrcc, circ_corrcl
    from pycircstat2.hypothesis import rayleigh_test

    out = []
    kw = dict(unit="radian", kwargs_median={"method": None}, kwargs_mean_ci={"method": None})
    for st in h:
        d = st["data"]
        a, b, x = rads(d["a"]), rads(d["b"]), np.array(d["x"]) * 0.01
        n = a.size
        ob = Obs()
        NAN = vlib.FNAN
        ob.o.update({k: NAN for k in "fl flo fle flt js jso jst jsp np npo cl clp clo pa pb".split()})
        ob.o.update(short=0, flx=0, npx=0, clx=0, flrej=-1, nprej=-1, jsref=-1)
        A_, ea = vlib.call(lambda: Circular(a, **kw))
        B_, eb = vlib.call(lambda: Circular(b, **kw))
        if ea or eb:
            ob.exc.append("objects")
        if n < 2:
            ob.get("short", "I", lambda: 1 if all(raises(f) for f in [lambda: circ_corrcc(a, b), lambda: circ_corrcc(a, b, method="js"), lambda: circ_corrcc(a, b, method="nonparametric"), lambda: circ_corrcl(a, x)]) else 0)
        else:
            v, e = vlib.call(lambda: circ_corrcc(a, b))
            if e == "ValueError":
                ob.o["flx"] = 1
            elif e:
                ob.exc.append("fl " + e)
            else:
                ob.o["fl"] = F(v)
                ob.get("flo", "F", lambda: circ_corrcc(A_, B_, method="FL"))
                ob.get("fle", "F", lambda: circ_corrcc(list(a), A_ if False else b, method="fl"))
                v, e = vlib.call(lambda: circ_corrcc(a, b, test=True))
                if e is None:
                    ob.o["flt"], ob.o["flrej"] = F(v.r), int(bool(v.reject_null))
                elif e != "ValueError":
                    ob.exc.append("fl test " + e)
            v, e = vlib.call(lambda: circ_corrcc(a, b, method="js"))
            if e is None:
                ob.o["js"] = F(v)
                ob.get("jso", "F", lambda: circ_corrcc(A_, B_, method="js", strict=False))
                ob.get("pa", "F", lambda: rayleigh_test(a).pval)
                ob.get("pb", "F", lambda: rayleigh_test(b).pval)
                ob.get("jsref", "I", lambda: 1 if raises(lambda: circ_corrcc(A_, B_, method="js")) else 0)
                v, e = vlib.call(lambda: circ_corrcc(a, b, method="js", test=True))
                if e is None:
                    ob.o["jst"], ob.o["jsp"] = F(v.test_stat), F(v.p_value)
                elif e != "ValueError":
                    ob.exc.append("js test " + e)
            elif e != "ValueError":
                ob.exc.append("js " + e)
            v, e = vlib.call(lambda: circ_corrcc(a, b, method="nonparametric", test=True))
            if e == "ValueError":
                ob.o["npx"] = 1
            elif e:
                ob.exc.append("np " + e)
            else:
                ob.o["np"], ob.o["nprej"] = F(v.r), int(v.reject_null)
                ob.get("npo", "F", lambda: circ_corrcc(A_, B_, method="Nonparametric"))
            v, e = vlib.call(lambda: circ_corrcl(a, x))
            if e == "ValueError":
                ob.o["clx"] = 1
            elif e:
                ob.exc.append("cl " + e)
            else:
                ob.o["cl"], ob.o["clp"] = F(v.r), F(v.p_value)
                ob.get("clo", "F", lambda: circ_corrcl(A_, list(x)).r)
        z = np.array([0.3, 1.0, 2.0])
        bad = [lambda: circ_corrcc(a, b, method="pearson")] + [lambda m=m: circ_corrcc(z, z[:2], method=m) for m in ("fl", "js", "nonparametric")] + [
            lambda: circ_corrcl(z, z[:2]), lambda: circ_corrcl(z, z[:, None]), lambda: circ_corrcc(z[:0], z[:0]), lambda: circ_corrcc(1.0, 1.0), lambda: circ_corrcc(z[None, :], z[None, :]), lambda: circ_corrcl(np.array([1.0, 1.0, 1.0 + np.pi]), z)]
        ob.get("bad", "I", lambda: sum(0 if raises(g) else 1 for g in bad))
        if ob.o["bad"]:
            ob.o["which"] = [i for i, g in enumerate(bad) if not raises(g)]
        out.append(ob.rec({"op": st["op"], "data": d, "key": ""}))
    return out


def run(ctx):
    ctx.mc("MC_Assoc", consts=None if ctx.quick else {"Lattice": "{0, 35000000, 110000000, 190000000, 250000000}"})
    q = ctx.quick
    hs = pairs(ctx, 350 if q else 4000, set(range(1, 13)))
    hs += pairs(ctx, 60 if q else 800, {16, 22}, salt=2)
    ctx.validate("Trace_Assoc", ctx.record(replay, hs))


if __name__ == "__main__":
    vlib.main("C15", run)
