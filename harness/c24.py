"""C24: longitude conversion."""
from fractions import Fraction
import numpy as np
from vlib import num, call


def events(rng, xs, start, span):
    from metcalcpy.util.utils import convert_lon_360_to_180, convert_lons_indices
    t = [num(x) for x in xs]
    form = rng.choice(["list", "float", "int"])
    arr = list(xs) if form == "list" else np.array(xs, dtype=float)
    if form == "int" and all(x == int(x) for x in xs):
        arr = np.array([int(x) for x in xs])
    keep = list(arr)
    out, err = call(convert_lon_360_to_180, arr)
    if not err and list(arr) != keep:
        err = "input changed"
    yield {"op": "west", "xs": t, "start": "-180", "span": "360", "err": err or "", "out": [] if err else [num(x) for x in out]}
    out, err = call(convert_lons_indices, arr, start, span)
    if not err and list(arr) != keep:
        err = "input changed"
    o, i = ([], []) if err else ([num(x) for x in out[0]], [int(x) for x in out[1]])
    yield {"op": "indices", "xs": t, "start": num(start), "span": num(span), "err": err or "", "out": o, "idx": i}


def run(ctx):
    rng = ctx.rng
    ev = []
    cases = ctx.model("MC_Lon", consts={"N": ctx.scale(3, 4)})
    for c in rng.sample(cases, ctx.scale(900, min(len(cases), 12000))):
        ev += events(rng, [float(Fraction(x)) for x in c["xs"]], float(Fraction(c["start"])), 360)
    for _ in range(ctx.scale(900, 9000)):
        n = rng.choice([0, 1, 2, 5, 30, 144])
        k = rng.choice(["grid", "rand", "dup"])
        if k == "grid":
            step = rng.choice([1, 2.5, 0.25, 5])
            x0 = rng.choice([0, -180, 0.125, 20, -90])
            xs = [x0 + step * j for j in range(n)]
        else:
            xs = [rng.randint(-8 * 1000, 8 * 1000) / 8 for _ in range(n)]
            if k == "dup" and xs:
                xs = [rng.choice(xs[:3]) + 360 * rng.randint(-1, 1) for _ in xs]
        ev += events(rng, xs, rng.choice([-180, 0, -180, 0, -20, 20, 100, -359, -12.5]), rng.choice([360, 360, 360, 180, 90]))
    ctx.judge("TV_Lon", ev)
