"""C27: kernel density estimates and the bundled data sets."""
from common import *


def replay(h):
    import numpy as np
    import pycircstat2.descriptive as D

    out = []
    r0 = np.random.default_rng(hash_ints(h[0]["data"]["a"]))
    hb = int(r0.choice([10000000, 20000000, 30000000, 45000000, 60000000, 90000000, 120000000, 179000000]))
    q = float(r0.choice([1.0, 1.0, 0.5, 2.0]))
    for st in h:
        rng = rng_of(st)
        a = rads(st["data"]["a"])
        ob = Obs()
        ix = [int(v) for v in rng.choice(100, 20, replace=False)]
        ix += [int(round((x % T) / T * 99)) % 99 for x in st["data"]["a"][:6]]  # next to observations
        keep = a.copy()
        box = {}

        def est():
            box["r"] = D.nonparametric_density_estimation(a, rad(hb), q)
            return box["r"][0]

        ob.get("x", "AV", est)
        if "r" in box:
            ob.get("f", "FV", lambda: box["r"][1])
            ob.get("f1", "F", lambda: D.nonparametric_density_estimation(a, rad(hb))[1][ix[0]])
            ob.get("kept", "B", lambda: bool(np.array_equal(a, keep)))
        out.append(ob.rec({"op": st["op"], "data": st["data"], "h": hb, "q": F(q), "ix": ix, "key": ""}))
    return out


def digest(rows):
    """Contents of a table, numbers by value."""
    import zlib

    def cell(v):
        try:
            x = float(v)
            return "nan" if x != x else "%.10g" % x
        except (TypeError, ValueError):
            return {"True": "1", "False": "0"}.get(str(v).strip(), str(v).strip())

    return zlib.crc32("\n".join("\t".join(cell(v) for v in r) for r in rows).encode()) % 2000000000


def names(v):
    import zlib

    return sorted(zlib.crc32(str(x).strip().encode()) % 2000000000 for x in v)


def load(arg):
    import csv
    import json
    import numpy as np
    import pycircstat2
    from pycircstat2 import load_data

    src, name = arg
    base = os.path.join(os.path.dirname(pycircstat2.__file__), "data", src, name + ".csv")
    with open(base, encoding="utf8") as f:
        raw = list(csv.reader(f))
    doc = json.load(open(base + "-metadata.json", encoding="utf8"))["Columns"]
    rec = {"op": {"t": "Load"}, "name": src + "/" + name, "doc": names(doc), "lines": len(raw) - 1, "file": digest([[c if c != "" else "nan" for c in r[1:]] for r in raw[1:]]),
           "cols": [], "rows": -1, "sum": -1, "again": -2, "mine": 0, "bad": 0}
    v, e = vlib.call(lambda: load_data(name, source=src))
    rec["e"] = e or ""
    if e is None:
        rec["cols"] = names(list(v.columns) + ([v.index.name] if v.index.name in doc else []))
        rec["rows"] = len(v)
        rec["sum"] = digest(v.values.tolist())
        w = load_data(name, source=src)
        w.iloc[:, 0] = np.nan if w.dtypes.iloc[0] == float else w.iloc[0, 0]
        w.drop(w.index[: len(w) // 2], inplace=True)
        rec["mine"] = 1 if digest(v.values.tolist()) == rec["sum"] else 0
        rec["again"] = digest(load_data(name, source=src).values.tolist())
        rec["bad"] = (0 if raises(lambda: load_data(name, source="nobody")) else 1) + (0 if raises(lambda: load_data("nothing", source=src), (FileNotFoundError, ValueError)) else 1)
    return [rec]


def run(ctx):
    import glob

    ctx.mc("MC_Kernel", workers=2)
    q = ctx.quick
    hs = samples(ctx, 600 if q else 6000, {1, 2, 5, 12, 20}, depth=3, ops=OPS - {"Expand", "Split", "Scale"})
    root = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "pycircstat2", "data")
    sets = sorted((f.split(os.sep)[-2], os.path.basename(f)[:-4]) for f in glob.glob(os.path.join(root, "*", "*.csv")))
    ctx.validate("Trace_Kernel", ctx.record(replay, hs) + ctx.record(load, sets))


if __name__ == "__main__":
    vlib.main("C27", run)
