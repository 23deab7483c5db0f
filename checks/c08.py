"""C08: Axial objects."""
from common import *
import c07


def replay(h):
    return c07.replay(h, ax=1, cls="Axial")


def run(ctx):
    ctx.mc("MC_Circ", workers=2)
    q = ctx.quick
    hs = samples(ctx, 180 if q else 2500, {1, 2, 3, 6, 9, 14, 24, 25, 26}, depth=3, wk=(0,), ops=OPS - {"Expand", "Split", "Scale"}, salt=5)
    hs += samples(ctx, 60 if q else 800, {12}, kinds={"grouped"}, depth=3, wk=(1,), ops={"Rotate", "Reflect", "Turn", "Wrap", "Swap", "Reverse"}, salt=7)
    ctx.validate("Trace_Circ", ctx.record(replay, hs))


if __name__ == "__main__":
    vlib.main("C08", run)
