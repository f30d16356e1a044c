"""C27: directional means and zonal waves."""
import warnings
from fractions import Fraction
import numpy as np
from vlib import num, call

F = lambda x: float("nan") if x in ("none", "nan") else float(Fraction(x))
TIGHT, LOOSE = "0.00000000001", "0.00001"


def grid(rng, circles, name, coord, dtype=float):
    """rows -> labelled array with the rows along `name`, which sits anywhere among the dimensions"""
    import xarray as xr
    a = np.array(circles, dtype=dtype)
    dims = ["row", name]
    coords = {"row": np.arange(len(circles)) * 10, name: coord}
    if rng.random() < .5:
        a, dims = a[np.newaxis], ["time"] + dims
        coords["time"] = [3]
    order = list(range(len(dims)))
    rng.shuffle(order)
    d = xr.DataArray(a.transpose(order), dims=[dims[i] for i in order], coords={dims[i]: coords[dims[i]] for i in order}, attrs={"units": "K"})
    return d


def row(d, r):
    d = d.isel(row=r)
    return d.isel(time=0) if "time" in d.dims else d


def guarded(fn):
    def go():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn()
    return call(go)


def lons(rng, n):
    start = rng.choice([0.0, -180.0, 2.5])
    return start + np.arange(n) * 360.0 / n


def wave_events(rng, xs, ys, what):
    """xs, ys: circles (numbers) of one length"""
    import xarray as xr
    from metcalcpy.pre_processing import waves as W
    n = len(xs[0])
    name = rng.choice(["longitude", "longitude", "lon", "x"])
    dtype = rng.choice([float, float, float, np.float32, int]) if all(float(v) == int(v) for x in xs for v in x) else rng.choice([float, float, np.float32])
    tol = LOOSE if dtype is np.float32 else TIGHT
    pkg = rng.choice(["scipy", "xrft"])
    sel = rng.choice([None, None, [rng.randint(0, n // 2)], sorted(rng.sample(range(n // 2 + 1), rng.randint(1, n // 2 + 1)))])
    if sel and rng.random() < .2:
        rng.shuffle(sel)
    form = rng.choice([list, np.array])
    kw = {} if sel is None else {"waves": form(sel)}
    if pkg != "scipy" or rng.random() < .5:
        kw["fftpkg"] = pkg
    ax = lons(rng, n)
    d = grid(rng, xs, name, ax, dtype)
    args = [d] if name == "longitude" and rng.random() < .5 else [d, name]
    want = sel if sel is not None else list(range(n // 2 + 1))
    base = {"tol": tol, "waves": want}
    res, err, deg = None, None, False
    if what == "coeffs":
        res, err = guarded(lambda: W.zonal_wave_coeffs(*args, **kw))
        get = lambda r: [{"re": num(z.real), "im": num(z.imag)} for z in row(res, r).sel(lon_wavenum=want).values]
    elif what == "ampl":
        deg = rng.random() < .5
        res, err = guarded(lambda: W.zonal_wave_ampl_phase(*args, phase_deg=deg, **kw))
        base["deg"] = deg
        get = lambda r: [{"a": num(float(a)), "p": num(float(p))} for a, p in zip(row(res[0], r).values, row(res[1], r).values)]
    elif what == "parts":
        res, err = guarded(lambda: W.zonal_wave_contributions(*args, **kw))
        get = lambda r: [[num(float(v)) for v in row(res, r).sel(lon_wavenum=k).values] for k in want]
    else:
        d2 = xr.DataArray(np.array(ys, dtype=float), dims=["row", name], coords={"row": d["row"], name: ax})
        if "time" in d.dims:
            d2 = d2.expand_dims(time=[3])
        d2 = d2.transpose(*d.dims)
        names = {} if name == "longitude" else {"dimvar1": name, "dimvar2": name}
        res, err = guarded(lambda: W.zonal_wave_covariance(d, d2, **names, **kw))
        get = lambda r: [num(float(v)) for v in row(res, r).sel(lon_wavenum=want).values]
    if not err:
        for q in (res if what == "ampl" else (res,)):
            if not isinstance(q, xr.DataArray) or list(q["lon_wavenum"].values) != want:
                err = "labels"
        if not err and what == "parts" and not np.array_equal(res[name].values, ax):
            err = "labels"
    ev = []
    for r, x in enumerate(xs):
        e = dict(base, op=what, x=[num(v) for v in x], err=err or "")
        if what == "cov":
            e["y"] = [num(v) for v in ys[r]]
        out, e2 = ([], None) if err else call(lambda: get(r))
        e["out"] = out or []
        e["err"] = e["err"] or e2 or ""
        ev.append(e)
    return ev


def mean_events(rng, lat, xs, a, b):
    """rows of values along latitude; one band"""
    import xarray as xr
    from metcalcpy.pre_processing.directional_means import meridional_mean, zonal_mean
    name = rng.choice(["latitude", "latitude", "lat"])
    d = grid(rng, [[F(v) for v in x] for x in xs], name, np.array([F(v) for v in lat]))
    as_set = rng.random() < .3
    inp = d.to_dataset(name="T") if as_set else d
    args = [inp, F(a), F(b)] + ([] if name == "latitude" else [name])
    res, err = guarded(lambda: meridional_mean(*args))
    zres, zerr = guarded(lambda: zonal_mean(inp, name))
    if as_set:
        res, zres = None if err else res["T"], None if zerr else zres["T"]
    ev = []
    for r, x in enumerate(xs):
        ev.append({"op": "meridional", "lat": lat, "x": x, "a": a, "b": b, "tol": TIGHT, "err": err or "", "out": "" if err else num(row(res, r).values)})
        ev.append({"op": "zonal", "x": x, "tol": TIGHT, "err": zerr or "", "out": "" if zerr else num(row(zres, r).values)})
    return ev


def run(ctx):
    rng = ctx.rng
    ev = []
    cases = ctx.model("MC_Waves", consts={"N": str(ctx.scale(5, 6))})
    by = {}
    for c in cases:
        by.setdefault(len(c["x"]) if c["op"] == "circle" else (c["a"], c["b"]), []).append(c)
    for key, cs in sorted(by.items(), key=str):
        if isinstance(key, tuple):
            ev += mean_events(rng, cs[0]["lat"], [c["x"] for c in cs], *key)
            continue
        rng.shuffle(cs)
        for k in range(0, len(cs), 20):
            part = cs[k:k + 20]
            xs, ys = [[int(v) for v in c["x"]] for c in part], [[int(v) for v in c["y"]] for c in part]
            for what in ("coeffs", "ampl", "parts", "cov"):
                ev += wave_events(rng, xs, ys, what)
    for _ in range(ctx.scale(100, 1000)):
        n = rng.choice([2, 3, 4, 6, 7, 8, 9, 12])
        m = rng.choice([1, 3])
        val = (lambda: rng.randint(-9, 9)) if rng.random() < .4 else (lambda: rng.randint(-900, 900) / 64)
        xs, ys = [[val() for _ in range(n)] for _ in range(m)], [[rng.randint(-90, 90) / 8 for _ in range(n)] for _ in range(m)]
        ev += wave_events(rng, xs, ys, rng.choice(["coeffs", "ampl", "parts", "cov"]))
    for _ in range(ctx.scale(100, 1000)):
        n = rng.choice([1, 2, 5, 9])
        lat = rng.sample([x / 2 for x in range(-178, 179, 5)], n)
        lat = sorted(lat, reverse=rng.random() < .5) if rng.random() < .8 else lat
        xs = [[num(rng.choice([rng.randint(-99, 99), rng.randint(-999, 999) / 16, None]) if rng.random() < .4 else rng.randint(-50, 50)) for _ in lat] for _ in range(rng.choice([1, 3]))]
        a, b = rng.choice(lat + [rng.randint(-90, 90)]), rng.choice(lat + [rng.randint(-90, 90), 90])
        if a > b and rng.random() < .8:
            a, b = b, a
        ev += mean_events(rng, [num(x) for x in lat], xs, num(a), num(b))
    ctx.judge("TV_Waves", ev)
