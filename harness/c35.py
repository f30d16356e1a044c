"""C35: space-time spectra, wave filters, dispersion curves and their utilities."""
import os
import numpy as np
from vlib import num
from c33 import quiet, nums
from c34 import opts, ints


def mods():
    import metcalcpy.contributed.spacetime.spacetime as s
    return s


def unopt(q):
    return np.array([np.nan if a == "none" else float(a) for a in q])


def rows(a):
    """latitude rows of a (time, lat, lon) array"""
    a = np.asarray(a, dtype=float)
    return [opts(a[:, j, :]) for j in range(a.shape[1])]


def smooth(q):
    x = unopt(q)
    r, err = quiet(lambda: mods().smooth121_1D(x))
    return {"op": "smooth", "err": err or "", "q": list(q), "out": [] if err else opts(r)}


def window(n, pct):
    r, err = quiet(lambda: mods().window_cosbell(n, float(pct)))
    return {"op": "window", "err": err or "", "n": n, "pct": pct, "out": [] if err else nums(r)}


def part(rng, lat, sym):
    import xarray as xr
    x = ints(rng, (2, len(lat), 3))
    la = np.array([float(a) for a in lat])
    arr = x.copy()
    labelled = rng.random() < .5
    X = xr.DataArray(arr, dims=("time", "lat", "lon"), coords={"lat": la}) if labelled else arr
    l = X.lat if labelled and rng.random() < .5 else la
    r, err = quiet(lambda: mods().get_symmasymm(X, l, "symm" if sym else rng.choice(["asymm", "anti-symm"])))
    return {"op": "part", "err": err or "", "x": rows(x), "lat": list(lat), "sym": sym, "kept": bool((arr == x).all()), "out": [] if err else rows(r)}


def tables(s):
    return [[opts(r) for r in t] for t in np.asarray(s, dtype=float)]


def segment(rng):
    nt, nm, nl, full = rng.choice([4, 5, 6, 7]), rng.choice([1, 2]), rng.choice([2, 3, 4]), rng.random() < .5
    x, y = ints(rng, (nt, nm, nl)), ints(rng, (nt, nm, nl))
    f = mods().mjo_cross_segment if full else mods().mjo_cross_segment_realfft
    r, err = quiet(lambda: f(x.copy(), y.copy()))
    return {"op": "segment", "err": err or "", "full": full, "nt": nt, "nl": nl, "x": [[nums(x[t, j]) for t in range(nt)] for j in range(nm)],
            "y": [[nums(y[t, j]) for t in range(nt)] for j in range(nm)], "out": [] if err else tables(r)}


def phase(rng):
    s = ints(rng, (8, rng.choice([1, 3]), rng.choice([2, 3])))
    s[:2] = np.abs(s[:2]) + 1
    s[2][s[2] == 0] = 2
    g = s.copy()
    r, err = quiet(lambda: mods().mjo_cross_coh2pha(g))
    return {"op": "phase", "err": err or "", "s": tables(s), "out": [] if err else tables(r)}


def smoothed(rng):
    n, zero = rng.choice([3, 5, 6]), rng.choice([1, 1, 2, 3])
    zero = min(zero, n - 1)
    s = ints(rng, (8, n, rng.choice([1, 3])), rng.choice([0, .2]))
    if rng.random() < .5:
        s[:, zero - 1, :] = np.nan
    r, err = quiet(lambda: mods().smooth121(s.copy(), np.arange(n) - (zero - 1.)))
    return {"op": "rows", "err": err or "", "zero": zero, "s": tables(s), "out": [] if err else tables(r)}


def cross(rng):
    import xarray as xr
    ln, nm, nl = rng.choice([5, 6, 7, 8, 10]), rng.choice([1, 2]), rng.choice([2, 3, 4])
    over = rng.choice([0, 0, 1, -1, -2, 2])
    nt = max(rng.choice([ln + 1, ln + 2, 2 * ln + over, 2 * ln + over + 1, 2 * ln + over - 1, 3 * ln]), ln + 1)
    x, y = ints(rng, (nt, nm, nl)), ints(rng, (nt, nm, nl))
    a, b = x.copy(), y.copy()
    if rng.random() < .3:
        b[:] = a
        y = x
    mk = (lambda q: xr.DataArray(q, dims=("time", "lat", "lon"))) if rng.random() < .4 else (lambda q: q)
    r, err = quiet(lambda: mods().mjo_cross(mk(a), mk(b), ln, over))
    e = {"op": "cross", "err": err or "", "len": ln, "over": over, "x": [[nums(x[:, j, l]) for l in range(nl)] for j in range(nm)], "y": [[nums(y[:, j, l]) for l in range(nl)] for j in range(nm)],
         "kept": bool((a == x).all() and (b == y).all())}
    if not err:
        e.update(out=tables(r["STC"]), freq=nums(r["freq"]), wave=nums(r["wave"]), nseg=int(r["nseg"]), dof=num(r["dof"]), p=nums(r["p"]), level=nums(r["prob_coh2"]))
    return e


def sizes(rng):
    a, b = rng.choice([((8, 1, 3), (9, 1, 3)), ((8, 2, 3), (8, 1, 3)), ((8, 1, 3), (8, 1, 4)), ((8, 1, 4), (9, 1, 3))])
    r, err = quiet(lambda: mods().mjo_cross(ints(rng, a), ints(rng, b), 5, 0))
    return {"op": "sizes", "err": err or "", "none": r is None}


CASED = {"KELVIN": ["Kelvin", "kelvin", "KELVIN"], "ER": ["ER", "er"], "MRG": ["MRG", "mrg"], "IG0": ["IG0", "ig0"], "IG1": ["IG1", "ig1"], "IG2": ["IG2", "ig2"], "MJO": ["MJO", "mjo"]}


def settings(rng, nf, nk):
    """a region whose limits do not fall on rounding ties"""
    nt = 2 * (nf - 1)
    while True:
        per = rng.choice([1, 2])
        tmin, tmax = rng.choice([(2.1, 9), (1.3, 3.1), (2.3, 30), (3.7, 17), (1.1, 96)])
        kmin = rng.randint(-(nk // 2), nk // 2)
        kmax = rng.randint(kmin, nk // 2)
        h = rng.choice([(8, 90), (8, 90), (25, None), (None, 25), (None, None), (12.5, 50), (20, 200)])
        if all(abs((nt / (t * per)) % 1 - .5) > 1e-6 for t in (tmin, tmax)):
            return {"perday": per, "tmin": num(tmin), "tmax": num(tmax), "kmin": kmin, "kmax": kmax, "hmin": num(h[0]) if h[0] else "none", "hmax": num(h[1]) if h[1] else "none", "wave": rng.choice(sorted(CASED))}


def args(e, rng):
    h = lambda a: -9999 if a == "none" else float(a)
    return (e["perday"], float(e["tmin"]), float(e["tmax"]), e["kmin"], e["kmax"], h(e["hmin"]), h(e["hmax"]), rng.choice(CASED[e["wave"]]))


def dirty():
    """what was freed does not look like zeros"""
    for v in (1e-9, 50., 3000.):
        a = [np.full(2, v) for _ in range(50)]
        del a


def mask(rng, e):
    g = np.random.default_rng(rng.randrange(2 ** 32))
    z = g.random((e["nk"], e["nf"])) + 1j * g.random((e["nk"], e["nf"])) + .5
    keep = z.copy()
    dirty()
    r, err = quiet(lambda: mods().kf_filter_mask(z, *args(e, rng)))
    e = dict(e, op="mask", err=err or "")
    if not err:
        left = np.argwhere(r != 0)
        e["left"] = [[int(f), int(-k % e["nk"])] for k, f in left]
        e["same"] = bool(r.shape == z.shape and all(r[k, f] == z[k, f] for k, f in left) and (z == keep).all())
    return e


def kf(rng):
    nt, nk = rng.choice([6, 8, 9, 11, 12]), rng.choice([4, 5, 6])
    e = dict(settings(rng, nt // 2 + 1, nk), nf=nt // 2 + 1, nk=nk)
    x = ints(rng, (nt, nk))
    dirty()
    r, err = quiet(lambda: mods().kf_filter(x.copy(), *args(e, rng)))
    return dict(e, op="kf", err=err or "", x=[nums(q) for q in x], out=[] if err else [nums(q) for q in r])


def curves(rng):
    import metcalcpy.contributed.spacetime.matsuno_plot as m
    hs = [rng.choice([8, 12, 25, 50, 90, 200.5]) for _ in range(2)]
    ns, lat = rng.choice([[1], [1, 2, 3], [2], [3, 1]]), rng.choice([0, 0, 5, -15, 30])
    mx, nw = rng.choice([1, 5, 20, 50]), rng.choice([2, 5, 8, 11, 40])
    whole = rng.random() < .5
    if whole:
        r, err = quiet(lambda: m.matsuno_modes_wk(he=hs, n=ns, latitude=lat, max_wn=mx, n_wn=nw))
    else:
        r, err = quiet(lambda: {h: m.matsuno_dataframe(h, ns, lat, mx, nw) for h in hs})
    if err:
        yield {"op": "curve", "err": err}
        return
    for h in set(hs):
        t = r[h]
        want = [("Kelvin", 0, f"Kelvin(he={h}m)"), ("MRG", 0, f"MRG(he={h}m)"), ("EIG0", 0, f"EIG(n=0,he={h}m)")]
        want += [(k, n, f"{k}(n={n},he={h}m)") for n in ns for k in ("ER", "EIG", "WIG")]
        names = set(t.columns) == {w[2] for w in want}
        for kind, n, name in want:
            yield {"op": "curve", "err": "" if names else "columns", "kind": kind, "n": n, "h": num(h), "lat": num(abs(lat)), "wn": nums(t.index.values), "want": nums(-mx + 2. * mx * np.arange(nw) / (nw - 1)),
                   "out": opts(t[name].values) if names else []}


def flip(rng, lon):
    import xarray as xr
    import metcalcpy.contributed.spacetime.spacetime_utils as a
    import metcalcpy.contributed.tropical_diagnostics.utils as b
    l = np.array([float(x) for x in lon])
    x = ints(rng, (2, 2, len(l)))
    d = xr.DataArray(x.copy(), dims=("time", "lat", "lon"), coords={"time": [0, 1], "lat": [0., 1.], "lon": l.copy()})
    r, err = quiet(lambda: rng.choice([a, b]).lonFlip(d, d.lon))
    return {"op": "flip", "err": err or "", "lon": list(lon), "x": [nums(x[:, :, k]) for k in range(len(l))], "kept": bool((d.values == x).all() and (d.lon.values == l).all()),
            "out": [] if err else nums(r.lon.values), "cols": [] if err else [nums(r.values[:, :, k]) for k in range(r.shape[2])]}


def save(ctx):
    import netCDF4
    import metcalcpy.contributed.spacetime.spacetime_utils as a
    import metcalcpy.contributed.tropical_diagnostics.utils as b
    rng = ctx.rng
    nv, nf, nw = rng.choice([4, 8]), rng.choice([2, 3]), rng.choice([3, 5])
    s = ints(rng, (nv, nf, nw), rng.choice([0, .2]))
    fr, wn = ints(rng, nf), np.arange(nw) - nw // 2
    d = os.path.join(ctx.tmp, "sp")
    os.makedirs(d, exist_ok=True)
    _, err = quiet(lambda: (a.save_Spectra(s.copy(), fr, wn, "f.g", rng.choice([d, d + os.sep])) if rng.random() < .5 else b.save_Spectra(s.copy(), fr, wn, "f.g", d + os.sep)))
    e = {"op": "save", "err": err or "", "given": [tables(s), nums(fr), nums(wn), nums(range(nv))]}
    if not err:
        with netCDF4.Dataset(os.path.join(d, "f.g.nc")) as n:
            n.set_auto_mask(False)
            e["read"] = [tables(n["STC"][:]), nums(n["freq"][:]), nums(n["wnum"][:]), nums(n["var"][:])]
        os.remove(os.path.join(d, "f.g.nc"))
    return e


def run(ctx):
    rng = ctx.rng
    events = []
    for c in ctx.model("MC_Spacetime", consts={"L": ctx.scale(5, 6)}):
        op = c.pop("op")
        if op == "smooth":
            events.append(smooth(c["q"]))
        elif op == "window":
            events.append(window(c["n"], c["pct"]))
        elif op == "part":
            events.append(part(rng, c["lat"], c["sym"]))
        elif op == "mask":
            events.append(mask(rng, c))
        else:
            events.append(flip(rng, c["lon"]))
    for _ in range(ctx.scale(40, 300)):
        nf, nk = rng.randint(3, 14), rng.randint(3, 12)
        events.append(mask(rng, dict(settings(rng, nf, nk), nf=nf, nk=nk)))
        events += [segment(rng), phase(rng), smoothed(rng), save(ctx)]
    for _ in range(ctx.scale(50, 300)):
        events += [cross(rng), kf(rng)]
    for _ in range(4):
        events.append(sizes(rng))
    for _ in range(ctx.scale(12, 60)):
        events += curves(rng)
        step = rng.choice([10, 30, 45, 72.5])
        lon = np.arange(rng.choice([-180, -175, 0, 2.5, 100]), 360, step)[:rng.randint(2, 9)]
        if lon.max() < 180 or lon.min() >= 0:
            events.append(flip(rng, nums(lon)))
    ctx.judge("TV_Spacetime", events, key=lambda e, c: e["op"] + ":" + c.split(" ")[0] + ":" + (c.split(" ")[1] if c.split(" ")[1] in ("frequencies", "used", "levels", "failed") else ""))
