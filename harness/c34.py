"""C34: indices of the Madden-Julian oscillation and of equatorial waves."""
import os, sys, types
import numpy as np
from vlib import num
from c33 import quiet, nums


def opt(x):
    return "none" if np.isnan(x) else num(x)


def opts(a):
    return [opt(x) for x in np.asarray(a, dtype=float).ravel()]


def ccew():
    # the image writer is not installed and not needed
    for n in ("kaleido", "kaleido.scopes", "kaleido.scopes.plotly"):
        if n not in sys.modules:
            sys.modules[n] = types.ModuleType(n)
    if not hasattr(sys.modules["kaleido.scopes.plotly"], "PlotlyScope"):
        sys.modules["kaleido.scopes.plotly"].PlotlyScope = object
    import metcalcpy.contributed.tropical_diagnostics.ccew_activity as c
    return c


def times(n, hours, start="2001-02-25"):
    return np.datetime64(start, "ns") + np.arange(n) * np.timedelta64(int(hours), "h")


def ints(rng, shape, missing=0.):
    g = np.random.default_rng(rng.randrange(2 ** 32))
    x = g.integers(-30, 31, shape) / 2.
    if missing:
        x[g.random(shape) < missing] = np.nan
    return x


def running(q, hours, more=1):
    import xarray as xr
    from metcalcpy.contributed.rmm_omi.compute_mjo_indices import rem_120day_mean
    x = np.array([[np.nan if a == "none" else float(a) for a in q]] * more).T
    t = times(len(q), hours)
    r, err = quiet(lambda: rem_120day_mean(xr.DataArray(x, dims=("time", "lon"), coords={"time": t, "lon": np.arange(float(more))}), t))
    return {"op": "running", "err": err or "", "q": list(q), "n": int(120 * 24 // hours), "out": [] if err else opts(r.values[:, -1])}


def taper(rng, n, w):
    from metcalcpy.contributed.rmm_omi.compute_mjo_indices import taper_vector_to_zero
    x = ints(rng, n)
    r, err = quiet(lambda: taper_vector_to_zero(x.copy(), w))
    return {"op": "taper", "err": err or "", "q": nums(x), "w": w, "out": [] if err else nums(r)}


def variance(rng):
    import xarray as xr
    from metcalcpy.contributed.rmm_omi.compute_mjo_indices import zon_avg_variance
    x = ints(rng, (rng.choice([1, 2, 5]), rng.choice([1, 3, 4])), rng.choice([0, .3]))
    x[0, 0] = 1.
    r, err = quiet(lambda: zon_avg_variance(xr.DataArray(x, dims=("time", "lon"))))
    return {"op": "variance", "err": err or "", "cols": [opts(x[:, k]) for k in range(x.shape[1])], "out": "" if err else opt(float(r))}


def cube(x, hours, start="2001-02-25"):
    import xarray as xr
    return xr.DataArray(x.copy(), dims=("time", "lat", "lon"), coords={"time": times(len(x), hours, start), "lat": np.arange(float(x.shape[1])), "lon": np.arange(float(x.shape[2])) * 10})


def filtered(rng):
    from metcalcpy.contributed.rmm_omi.compute_mjo_indices import perform_3dim_spectral_filtering
    n, spd = rng.choice([4, 5, 7, 8]), rng.choice([1, 1, 2])
    x = ints(rng, (n, rng.choice([1, 2]), rng.choice([2, 3, 4, 5])))
    pmin, pmax = rng.choice([(20, 96), (30, 90), (2.5, 11), (7, 33)])
    lo, hi = rng.choice([(-720, 720), (-720, 720), (0, 1), (-1, 1), (1, 2), (-2, -1), (-1, 0)])
    d = cube(x, 24 // spd)
    r, err = quiet(lambda: perform_3dim_spectral_filtering(d, 1. / spd, pmin, pmax, lo, hi))
    for j in range(x.shape[1]):
        yield {"op": "filter", "err": err or "", "kept": bool((d.values == x).all()), "x": [nums(x[:, j, l]) for l in range(x.shape[2])], "nt": n + 1000, "dt": num(1. / spd), "w": 10 * spd,
               "pmin": num(pmin), "pmax": num(pmax), "lo": lo, "hi": hi, "out": [] if err else [nums(r.values[:, j, l]) for l in range(x.shape[2])]}


def band(rng):
    from metcalcpy.contributed.rmm_omi.compute_mjo_indices import bandpass_filter_3D
    n, spd = rng.choice([4, 6, 9]), rng.choice([1, 2])
    x = ints(rng, (n, rng.choice([1, 2]), rng.choice([1, 2])))
    a, b = rng.choice([(20, 96), (30, 90), (2.5, 11)])
    d = cube(x, 24 // spd)
    r, err = quiet(lambda: bandpass_filter_3D(d, d.time.values, a, b))
    for j in range(x.shape[1]):
        yield {"op": "band", "err": err or "", "kept": bool((d.values == x).all()), "q": nums(x[:, j, 0]), "nt": 2 ** 17, "dt": num(1. / spd), "w": 10 * spd, "pmin": num(a), "pmax": num(b),
               "out": [] if err else nums(r.values[:, j, 0])}


def independent(e, f):
    return abs((e @ e) * (f @ f) - (e @ f) ** 2) > 1e-3


def pat2(rng, shape):
    while True:
        e, f = ints(rng, shape), ints(rng, shape)
        if independent(e.ravel(), f.ravel()):
            return e, f


def regress(rng):
    import xarray as xr
    import pandas as pd
    import metcalcpy.contributed.rmm_omi.compute_mjo_indices as m
    la, lo = rng.choice([1, 2, 3]), rng.choice([2, 3])
    n, hours = rng.choice([1, 3, 5]), rng.choice([24, 24, 12, 240])
    x = ints(rng, (n, la, lo))
    d = cube(x, hours, rng.choice(["2000-02-27", "2001-02-27", "2000-12-29", "2001-12-30"]))
    if rng.random() < .5:
        e, f = zip(*[pat2(rng, (la, lo)) for _ in range(366)])
        mk = lambda q: xr.DataArray(np.array(q), dims=("doy", "lat", "lon"), coords={"lat": d.lat.values, "lon": d.lon.values})
        r, err = quiet(lambda: m.regress_3dim_data_onto_eofs(d, d.time.values, mk(e), mk(f)))
        day = [pd.Timestamp(t).dayofyear - 1 for t in d.time.values]
        a, b = [nums(e[k]) for k in day], [nums(f[k]) for k in day]
    else:
        e, f = pat2(rng, la * lo)
        mk = lambda q: xr.DataArray(q, dims=("lon_ext",))
        flat = xr.DataArray(x.reshape(n, -1), dims=("time", "lon_ext"))
        r, err = quiet(lambda: m.regress_2dim_data_onto_eofs(flat, d.time.values, mk(e), mk(f)))
        a, b = [nums(e)] * n, [nums(f)] * n
    return {"op": "regress", "err": err or "", "v": [nums(y) for y in x], "a": a, "b": b, "out": [] if err else [[num(p), num(q)] for p, q in zip(*r)]}


def rmm(rng):
    import xarray as xr
    from metcalcpy.contributed.rmm_omi.compute_mjo_indices import rmm as f
    n, lo, hours = rng.choice([3, 6, 9]), rng.choice([1, 2, 3]), rng.choice([24, 480, 960, 720])
    t = times(n, hours)
    lon = np.arange(float(lo)) * 2.5
    lons = [lon.copy() for _ in range(3)]
    refuse = rng.random() < .3
    if refuse:
        lons[rng.randrange(3)] += rng.choice([1.25, 360., -2.5])
    x = [ints(rng, (n, lo)) for _ in range(3)]
    e, g = pat2(rng, 3 * lo)
    norm, pcn = [rng.choice([1.5, 15., 4.]) for _ in range(3)], [rng.choice([2., 8.5]), rng.choice([3., 7.5])]
    mk = lambda y, l: xr.DataArray(y, dims=("time", "lon"), coords={"time": t, "lon": l})
    pat = lambda q: xr.DataArray(q.reshape(3, lo), dims=("var", "lon"), coords={"lon": lon})
    d = [mk(y.copy(), l) for y, l in zip(x, lons)]
    r, err = quiet(lambda: f(*d, t, 24 // hours or 1, pat(e), pat(g), norm, pcn))
    return {"op": "rmm", "refuse": refuse, "kept": all(bool((a.values == b).all()) for a, b in zip(d, x)), "err": err or "", "f": [[nums(y[:, k]) for k in range(lo)] for y in x], "n": int(120 * 24 // hours), "norm": nums(norm), "pcn": nums(pcn), "e1": nums(e), "e2": nums(g),
            "out": [] if err else [[num(p), num(q)] for p, q in zip(r[0].values, r[1].values)]}


def omi(rng):
    import xarray as xr
    import pandas as pd
    from metcalcpy.contributed.rmm_omi.compute_mjo_indices import omi as f
    n, la, lo, spd = rng.choice([4, 5]), rng.choice([1, 2]), rng.choice([2, 3]), rng.choice([1, 2])
    x = ints(rng, (n, la, lo))
    d = cube(x, 24 // spd, rng.choice(["2000-02-27", "2001-12-30"]))
    e, g = zip(*[pat2(rng, (la, lo)) for _ in range(366)])
    refuse = rng.choice(["", "", "", "lat", "lon"])
    mk = lambda q: xr.DataArray(np.array(q), dims=("doy", "lat", "lon"), coords={"lat": d.lat.values + (refuse == "lat"), "lon": d.lon.values + (refuse == "lon")})
    r, err = quiet(lambda: f(d, d.time.values, spd, mk(e), mk(g)))
    day = [pd.Timestamp(t).dayofyear - 1 for t in d.time.values]
    return {"op": "omi", "refuse": bool(refuse), "err": err or "", "kept": bool((d.values == x).all()), "x": [[nums(x[:, j, l]) for l in range(lo)] for j in range(la)], "nt": n + 1000, "dt": num(1. / spd), "w": 10 * spd,
            "e1": [nums(e[k]) for k in day], "e2": [nums(g[k]) for k in day], "out": [] if err else [[num(p), num(q)] for p, q in zip(r[0].values, r[1].values)]}


# ---- equatorial waves
def days(rng, spd):
    """times of a few days in one or more years"""
    import pandas as pd
    out = []
    year0 = rng.choice([1999, 2000, 2001])
    first = rng.choice(["02-26", "12-30", "06-01"])
    for y in range(rng.choice([1, 2, 3])):
        out += list(pd.date_range(f"{year0 + y}-{first}", periods=spd * rng.choice([2, 4]), freq=f"{24 // spd}h"))
    return pd.DatetimeIndex(out)


def season(rng):
    import xarray as xr
    c = ccew()
    t = days(rng, rng.choice([1, 1, 2]))
    x = ints(rng, (len(t), 2), rng.choice([0, .15]))
    day = [s.strftime("%m-%d") for s in t]
    # a cycle needs a day that occurs twice
    year = len(set(day)) < len(day) and rng.random() < .8
    d = xr.DataArray(x, dims=("time", "lon"), coords={"time": t})
    r, err = quiet(lambda: (c.rem_seas_cyc if year else c.rem_seas_mean)(d))
    return {"op": "season", "err": err or "", "year": year, "q": opts(x[:, 1]), "day": day, "out": [] if err else opts(r.values[:, 1])}


def patterns(rng, c, monthly, ne, lat, lon):
    import xarray as xr
    n = 12 if monthly else 1
    p = ints(rng, (n, ne, len(lat), len(lon)))
    return p, xr.DataArray(p, coords=[np.arange(n) + 1 if monthly else np.arange(1), np.arange(ne) + 1, lat, lon], dims=["month" if monthly else "annual", "eofnum", "lat", "lon"])


def project(rng):
    import xarray as xr
    c = ccew()
    monthly = rng.random() < .6
    lat, lon = np.arange(-2., 3.), np.arange(0., 50., 10)
    sub, sel = slice(rng.choice([0, 1]), rng.choice([3, 5])), slice(rng.choice([0, 2]), rng.choice([4, 5]))
    t = days(rng, 1)
    if rng.random() < .5:
        import pandas as pd
        t = pd.date_range("2001-01-15", periods=6, freq="61D")
    x = ints(rng, (len(t), 5, 5))
    p, ps = patterns(rng, c, monthly, rng.choice([1, 2, 4]), lat[sub], lon[sel])
    r, err = quiet(lambda: c.waveproj(xr.DataArray(x, dims=("time", "lat", "lon"), coords={"time": t, "lat": lat, "lon": lon}), ps))
    return {"op": "project", "err": err or "", "a": [nums(y[sub, sel]) for y in x], "p": [[nums(z) for z in p[s.month - 1 if monthly else 0]] for s in t], "out": [] if err else [nums(r.values[:, k]) for k in range(len(t))]}


NAMES = {"Kelvin": ("EOF_1-4_130-270E_-15S-15N_persiann_cdr_{r}_nlat{n}_fillmiss8314_1983-2016_Kelvinband_", 4), "ER": ("EOF_1-4_60-220E_-21S-21N_persiann_cdr_{r}_nlat{n}_fillmiss8314_1983-2016_ERband_", 4),
         "MJO": ("EOF_1-4_30-240E_-21S-21N_persiann_cdr_{r}_nlat{n}_fillmiss8314_1983-2016_MJOband_", 4), "MRG": ("EOF_1-2_150-210E_-21S-21N_precip.trmm.8x.1deg.lats{n}.v7a.fillmiss.comp.1998-201806_MRGband_", 2)}


def activity(ctx):
    import xarray as xr
    rng, c = ctx.rng, ccew()
    wave = rng.choice(sorted(NAMES))
    name, ne = NAMES[wave]
    monthly, spd, nlat = rng.random() < .5, rng.choice([1, 2]), rng.choice([180, 181])
    lat, lon = np.arange(-1., 2.), np.arange(0., 30., 10)
    t = days(rng, spd)
    x = ints(rng, (len(t), 3, 3))
    # files of several waves lie side by side
    base = os.path.join(ctx.tmp, "eof") + os.sep
    os.makedirs(base, exist_ok=True)
    for w, (nm, k) in NAMES.items():
        p, _ = patterns(rng, c, monthly, k, lat[:2], lon[1:])
        for j in range(len(p)):
            f = base + nm.format(r="1p0", n=nlat) + (f"{j + 1:02d}.nc" if monthly else "annual.nc")
            xr.Dataset({"eof": (("eofnum", "lat", "lon"), p[j])}, coords={"eofnum": np.arange(k) + 1, "lat": lat[:2], "lon": lon[1:]}).to_netcdf(f)
        if w == wave:
            mine = p
    d = xr.DataArray(x, dims=("time", "lat", "lon"), coords={"time": t, "lat": lat, "lon": lon})
    if rng.random() < .5:
        d.attrs["units"] = "mm"
    given = rng.choice([wave, wave.lower()])
    r, err = quiet(lambda: c.waveact(d, given, base, spd, "1p0", nlat, "monthly" if monthly else "annual"))
    doy = [s.dayofyear for s in t][::spd]
    want = [d.attrs.get("units", "none"), given + " activity"]
    got = [] if err else [str(r.attrs.get("units", "none")), str(r.attrs.get("name"))]
    return {"op": "activity", "err": err or "", "labels": [got, want], "year": len(set(doy)) < len(doy), "q": [nums(x[:, i, j]) for i in range(2) for j in range(1, 3)], "day": [s.strftime("%m-%d") for s in t],
            "p": [[nums(z) for z in mine[s.month - 1 if monthly else 0]] for s in t], "out": [] if err else nums(r.values)}


def skill(rng):
    import xarray as xr
    c = ccew()
    a = ints(rng, (rng.choice([1, 2, 3]), rng.choice([2, 3, 4]), rng.choice([3, 5])))
    if any(len(set(r)) < 2 for m in a for r in m):
        return None
    arr = a.copy()
    arg = xr.DataArray(arr, dims=("lead", "line", "time")) if rng.random() < .5 else arr
    r, err = quiet(lambda: c.wave_skill(arg))
    return {"op": "skill", "err": err or "", "kept": bool((arr == a).all()), "act": [[nums(r_) for r_ in m] for m in a], "out": [] if err else [nums(q) for q in np.asarray(r).reshape(a.shape[0], -1)]}


def pattern(rng):
    import xarray as xr
    c = ccew()
    n, la, lo = rng.choice([4, 5]), rng.choice([1, 2]), rng.choice([2, 3])
    x = ints(rng, (n, la, lo))
    if any(len(set(x[:, i, j])) < 2 for i in range(la) for j in range(lo)):
        return None
    cov, dim = rng.random() < .5, rng.choice([0, 0, 1, 2])
    rank = min(n - (not cov), la * lo)
    k = rng.randint(1, rank)
    d = xr.DataArray(np.moveaxis(x, 0, dim).copy(), dims=("a", "b", "c"))
    r, err = quiet(lambda: c.eof_comp(d, k, c.opt_eof(cov), dim))
    e = {"op": "pattern", "err": err or "", "cov": cov, "x": [nums(y) for y in x]}
    if not err:
        e.update(u=[nums(y) for y in r[0]], share=nums(r[1]), pat=[nums(y) for y in r[2]])
        if np.asarray(r[2]).shape != (k, la, lo):
            e["err"] = "shape"
    return e


def run(ctx):
    rng = ctx.rng
    events = []
    for c in ctx.model("MC_Indices", consts={"L": ctx.scale(5, 6)}):
        if c["op"] == "running":
            if ctx.thorough or rng.random() < .35:
                events.append(running(c["q"], 120 * 24 // c["n"], rng.choice([1, 2])))
        elif c["op"] == "taper":
            events.append(taper(rng, c["n"], c["w"]))
    for _ in range(ctx.scale(10, 60)):
        events.append(running([opt(x) for x in ints(rng, rng.choice([119, 122, 130, 250]))], rng.choice([24, 24, 12])))
    for _ in range(ctx.scale(40, 300)):
        events += [variance(rng), regress(rng), rmm(rng), season(rng), project(rng), activity(ctx), skill(rng), pattern(rng)]
    for _ in range(ctx.scale(40, 200)):
        events += filtered(rng)
    for _ in range(ctx.scale(12, 60)):
        events += band(rng)
        events.append(omi(rng))
    ctx.judge("TV_Indices", [e for e in events if e], key=lambda e, c: e["op"] + ":" + c.split(" ")[0])
