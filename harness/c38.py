"""C38: coupling of the Madden-Julian oscillation with El Nino."""
import numpy as np
from vlib import num
from c33 import quiet, nums


def frac(s):
    a, _, b = s.partition("/")
    return int(a) / int(b or 1)


def ints(rng, shape, lo=-30, hi=31):
    return np.random.default_rng(rng.randrange(2 ** 32)).integers(lo, hi, shape) / 2.


def grid(x, la, lo, t):
    import xarray as xr
    return xr.DataArray(x, dims=("time", "lat", "lon"), coords={"time": t, "lat": la, "lon": lo})


def days(n, start="2001-02-25"):
    return np.datetime64(start, "ns") + np.arange(n) * np.timedelta64(1, "D")


def stress(x, p, f, g, la, lo):
    """x[time, lat, lon] with points missing at all times, f and g by number and available point"""
    from metcalcpy.contributed.mjo_enso.compute_mjo_enso import calc_tau_MJO
    t = days(len(x))
    a, e = grid(x.copy(), la, lo, t), grid(p.copy(), la, lo, np.arange(len(p)))
    r, err = quiet(lambda: calc_tau_MJO(a, e, f.copy(), g.copy()))
    there = [(i, j) for i in range(len(la)) for j in range(len(lo)) if not np.isnan(x[0, i, j])]
    out, gaps = [], True
    if not err:
        r = r.sel(lat=la, lon=lo, time=t).transpose("time", "lat", "lon").values
        out = [nums(r[:, i, j]) for i, j in there]
        gaps = bool(np.isnan(r[np.isnan(x)]).all())
    return {"op": "tau", "err": err or "", "x": [nums(x[:, i, j]) for i, j in there], "p": [nums([q[i, j] for i, j in there]) for q in p],
            "f": [nums(c) for c in f.T], "g": [nums(c) for c in g.T], "out": out, "gaps": gaps,
            "kept": bool(np.array_equal(a.values, x, equal_nan=True) and np.array_equal(e.values, p))}


def random_stress(rng):
    la, lo = np.arange(rng.choice([1, 2, 3])) * 2. - 1, np.arange(rng.choice([2, 3])) * 2.5 + 100
    if rng.random() < .3:
        la = la[::-1]
    n = rng.choice([12, 15, 20])
    x = ints(rng, (n, len(la), len(lo)))
    if len(la) * len(lo) > 2 and rng.random() < .6:
        x[:, rng.randrange(len(la)), rng.randrange(len(lo))] = np.nan
    m = int((~np.isnan(x[0])).sum())
    f, g = [ints(rng, (rng.choice([1, 3, 5, 11]), m), -4, 5) / 8 for _ in range(2)]
    g[len(g) // 2] = 1
    return stress(x, ints(rng, (4, len(la), len(lo))), f, g, la, lo)


def power(rng, south, north, n):
    from metcalcpy.contributed.mjo_enso.compute_mjo_enso import calc_wpower_MJO
    la, lo = np.linspace(south, north, n), np.arange(rng.choice([1, 2, 3])) * 2.5 + 100
    t = days(rng.choice([1, 2, 3]))
    x = [ints(rng, (len(t), n, len(lo))) for _ in range(4)]
    a = [grid(y.copy(), la, lo, t) for y in x]
    r, err = quiet(lambda: calc_wpower_MJO(*a))
    by = lambda y: [nums(y[:, j, :]) for j in range(n)]
    return {"op": "power", "err": err or "", "south": num(float(la[0])), "north": num(float(la[-1])), "u": by(x[0]), "v": by(x[1]), "a": by(x[2]), "b": by(x[3]),
            "out": [] if err else by(r.transpose("time", "lat", "lon").values), "kept": all(np.array_equal(p.values, q) for p, q in zip(a, x))}


def index(rng):
    import pandas as pd, xarray as xr
    from metcalcpy.contributed.mjo_enso.compute_mjo_enso import make_maki
    first = pd.Timestamp(year=rng.choice([1999, 2000, 2003]), month=rng.randint(1, 12), day=1)
    end = first + pd.DateOffset(months=rng.choice([2, 3, 5])) + pd.Timedelta(days=rng.choice([-1, 0, 0, 12]))
    t = pd.date_range(first - pd.Timedelta(days=90), end)
    lo = np.arange(rng.choice([1, 2, 3])) * 2.5 + 100
    x = [np.cumsum(ints(rng, (len(t), len(lo)), -4, 5), axis=0) + ints(rng, (len(t), len(lo)), -9, 10) for _ in range(2)]
    p = ints(rng, (2, 2 * len(lo)), -6, 7)
    p[:, 0] += .25
    a = [xr.DataArray(y.copy(), dims=("time", "lon"), coords={"time": t, "lon": lo}) for y in x]
    m = xr.DataArray(p.copy(), dims=("eof", "lonn"))
    r, err = quiet(lambda: make_maki(a[0], a[1], m))
    return {"op": "index", "err": err or "", "s": [nums(c) for c in x[0].T], "w": [nums(c) for c in x[1].T], "p": [nums(q) for q in p],
            "day": [int(d.day) for d in t], "date": [d.strftime("%Y-%m-%d") for d in t],
            "out": [] if err else [nums(q.values) for q in r], "label": [] if err else [[str(d)[:10] for d in q.time.values] for q in r],
            "kept": all(np.array_equal(b.values, y) for b, y in zip(a + [m], x + [p]))}


def run(ctx):
    rng = ctx.rng
    events = []
    for c in ctx.model("MC_MjoEnso", consts={"L": ctx.scale(3, 4)}):
        if c["op"] == "wave":
            events.append(power(rng, float(c["s"]), float(c["w"]), c["n"]))
        elif c["op"] == "tau" and rng.random() < ctx.scale(.02, .02):
            # the short flux at the end of a longer one, two more points and patterns
            n = len(c["x"][0])
            x = ints(rng, (12, 2, 2))
            x[:, 0, :] = 0
            x[-n:, 0, :] = np.array([[frac(z) for z in q] for q in c["x"]]).T
            f, g = [np.array([[frac(z) for z in c[k][0]]] * 4).T for k in "fg"]
            events.append(stress(x, ints(rng, (4, 2, 2)), f, g, np.array([0., 1.]), np.array([100., 101.])))
    for _ in range(ctx.scale(40, 300)):
        events.append(random_stress(rng))
    for _ in range(ctx.scale(40, 300)):
        n = rng.randint(3, 12)
        events.append(power(rng, -rng.randint(2, 40) / 4, rng.randint(20, 40) / 4 if rng.random() < .5 else 5., n))
    for _ in range(ctx.scale(25, 150)):
        events.append(index(rng))
    ctx.judge("TV_MjoEnso", events, key=lambda e, c: e["op"] + ":" + c.split(" ")[0])
