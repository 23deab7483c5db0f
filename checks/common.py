import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vlib  # noqa: E402
from vlib import A, AV, F, FV, INT, IV, Obs, T, rad, rads  # noqa: E402,F401

NEW = {"t": "New", "x": 0, "i": 1, "j": 1}
KINDS = {"any", "narrow", "half", "tight", "wide", "deg5", "deg", "deg30c", "two", "raw", "seam", "fine"}
OPS = {"Rotate", "Reflect", "Turn", "Wrap", "Swap", "Reverse", "Split", "Expand", "Scale", "Insert", "Remove"}


def rng_of(st, salt=0):
    """Arguments derived from the state itself, so that a replay is repeatable."""
    import numpy as np

    a = st["data"]["a"]
    return np.random.default_rng([abs(hash_ints(a)) % (2**31), hash_ints(st["data"]["w"]) % (2**31), salt])


def hash_ints(v):
    h = 17
    for x in v:
        h = (h * 1000003 + x) % 2147483647
    return h


def raises(fn, kinds=(ValueError,)):
    v, e = vlib.call(fn)
    return e is not None and e in tuple(k.__name__ for k in kinds)


def samples(ctx, num, sizes, kinds=KINDS, wk=(0,), ops=OPS, depth=4, salt=1):
    return ctx.gen("GenSample", {"Kinds": set(kinds), "Sizes": set(sizes), "WKinds": set(wk), "OpNames": set(ops), "Depth": depth}, num, depth, salt=salt)


GOPS = {"RotateAll", "ReflectAll", "SwapGroups", "Turn", "Wrap", "Swap", "Reverse", "Split", "Expand", "Insert", "Remove"}


def groups(ctx, num, ks, sizes, kinds=KINDS, wk=(0,), modes=("shared", "near", "free"), ops=GOPS, depth=4, salt=1):
    return ctx.gen("GenGroups", {"Ks": set(ks), "Kinds": set(kinds), "Sizes": set(sizes), "WKinds": set(wk), "Modes": set(modes), "OpNames": set(ops), "Depth": depth}, num, depth, salt=salt)


def rng_of_groups(st, salt=0):
    import numpy as np

    return np.random.default_rng([hash_ints([abs(x) for g in st["s"] for x in g["a"]]) % (2**31), salt])


def group_objects(st):
    """Samples as Circular objects (with their frequencies)."""
    from pycircstat2 import Circular
    import numpy as np

    out = []
    for g in st["s"]:
        w = np.array(g["w"])
        if w.size == 1:  # no bin width can be inferred from a single direction
            g, w = {"a": g["a"] * int(w[0])}, np.ones(int(w[0]), int)
        out.append(Circular(rads(g["a"]), w=None if (w == 1).all() else w, unit="radian", kwargs_median={"method": None}, kwargs_mean_ci={"method": None}))
    return out


POPS = {"RotA", "RotB", "RefA", "RefB", "TurnA", "TurnB", "SwapP", "RevP", "Exchange", "ShiftX", "ScaleX", "InsertP", "RemoveP"}


def pairs(ctx, num, sizes, kinds=KINDS, modes=("free", "same", "mirror", "double"), xmodes=("free", "few", "cos"), ops=POPS, depth=4, salt=1):
    return ctx.gen("GenPairs", {"Kinds": set(kinds), "Sizes": set(sizes), "Modes": set(modes), "XModes": set(xmodes), "OpNames": set(ops), "Depth": depth}, num, depth, salt=salt)


FAMS = {"circularuniform", "triangular", "cardioid", "cartwright", "wrapnorm", "wrapcauchy", "vonmises", "vonmises_flattopped", "jonespewsey",
        "jonespewsey_sineskewed", "jonespewsey_asym", "inverse_batschelet", "wrapstable", "katojones"}


def laws(ctx, num, fams=FAMS, ops=("Turn", "Nudge", "Other", "Back"), depth=2, salt=1, deg=False):
    return ctx.gen("GenDist", {"Fams": set(fams), "OpNames": set(ops), "Depth": depth, "Deg": deg}, num, depth, salt=salt)


def law_args(law):
    """Distribution object and its parameters, in order."""
    from pycircstat2 import distributions

    p = [vlib.unF(v) for v in law["p"]]
    return getattr(distributions, law["f"]), p if law["f"] in ("circularuniform", "triangular") else [rad(law["loc"])] + p


def rng_of_law(st, salt=0):
    import numpy as np

    return np.random.default_rng([hash_ints(st["xs"]), hash_ints(st["qs"]), salt])
