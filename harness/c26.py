"""C26: vertical interpolation and heights of pressure levels."""
import os, subprocess, sys, warnings
from fractions import Fraction
import numpy as np
from vlib import num, call, REPO

F = lambda x: float("nan") if x in ("none", "nan") else float(Fraction(x))
EXACT, SINGLE = "0.000000001", "0.00001"


def layout(rng):
    return rng.choice([("lev", "lat", "lon"), ("time", "lev", "lat", "lon"), ("lat", "lev", "lon"), ("lat", "lon", "lev"), ("lev", "x")])


def spread(rng, cols, dims, levdim, coords):
    """columns -> array over dims (the last column repeats where the grid is larger)"""
    n = len(cols)
    horiz = [d for d in dims if d != "lev"]
    shape = {d: 1 for d in horiz}
    if len(horiz) > 1:
        shape[horiz[-2]] = 2 if n > 1 else 1
        shape[horiz[-1]] = -(-n // shape[horiz[-2]])
    else:
        shape[horiz[0]] = n
    shape["lev"] = len(cols[0])
    a = np.empty([shape[d] for d in dims])
    ax = dims.index("lev")
    where = []
    k = 0
    for idx in np.ndindex(*[shape[d] for d in horiz]):
        sel = list(idx)
        sel.insert(ax, slice(None))
        a[tuple(sel)] = cols[min(k, n - 1)]
        if k < n:
            where.append(tuple(sel))
        k += 1
    cs = {(levdim if d == "lev" else d): (coords if d == "lev" else np.arange(shape[d])) for d in dims}
    return a, cs, where


def interp_events(rng, cols, at, atunit="m", zunit="m", dtype=float, op="interp"):
    """cols: list of (z, f) of one length; at: levels in atunit, as text"""
    import xarray as xr
    from metcalcpy.vertical_interp import vertical_interp
    dims = layout(rng)
    levdim = rng.choice(["isobaricInhPa", "level", "pfull"])
    lev = np.arange(len(cols[0][0]))[::-1] * 50.0 + 100
    z, cs, where = spread(rng, [[F(x) for x in c[0]] for c in cols], dims, levdim, lev)
    f, _, _ = spread(rng, [[F(x) for x in c[1]] for c in cols], dims, levdim, lev)
    names = [levdim if d == "lev" else d for d in dims]
    field = xr.DataArray(f.astype(dtype), dims=names, coords=cs, attrs={"units": "K"})
    surf = xr.DataArray(z, dims=names, coords=cs, attrs={"units": zunit})
    cfg = {"vertical_dim_name": levdim, "vertical_levels": [F(x) for x in at], "vertical_level_units": atunit}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res, err = call(vertical_interp, "T", cfg, surf, field)
    out = []
    if not err:
        out = np.asarray(res[0].values)
        if res[0].dims != tuple("lev" if d == levdim else d for d in names) or list(res[0].coords["lev"].values) != [dtype(F(x)) for x in at]:
            err = "shape"
    ev = []
    for (zz, ff), w in zip(cols, where):
        ev.append({"op": op, "z": zz, "f": [num(float(dtype(F(x)))) if x != "none" else x for x in ff] if dtype is not float else ff, "at": at, "atunit": atunit, "zunit": zunit,
                   "tol": EXACT if dtype is float else SINGLE, "err": err or "", "out": [] if err else [num(x) for x in out[w]]})
    return ev


def height_events(rng, cs):
    """cs: columns with the same pressure levels"""
    import xarray as xr
    from metcalcpy.vertical_interp import height_from_pressure
    dims = layout(rng)
    levdim = rng.choice(["isobaricInhPa", "level"])
    punit, sunit = rng.choice([("hPa", "Pa"), ("hPa", "hPa"), ("Pa", "Pa"), ("millibar", "Pa"), ("Pa", "hPa")])
    fac = {"hPa": 1, "millibar": 1, "Pa": 100}
    lev = np.array([F(x) * fac[punit] for x in cs[0]["p"]])
    t, co, where = spread(rng, [[F(x) for x in c["t"]] for c in cs], dims, levdim, lev)
    hunit, hf = rng.choice([("%", 100), ("dimensionless", 1), ("percent", 100)])
    rh, _, _ = spread(rng, [[F(x) * hf for x in c["rh"]] for c in cs], dims, levdim, lev)
    names = [levdim if d == "lev" else d for d in dims]
    T = xr.DataArray(t, dims=names, coords=co, attrs={"units": "K"})
    T.coords[levdim].attrs["units"] = punit
    RH = xr.DataArray(rh, dims=names, coords=T.coords, attrs={"units": hunit})
    ax = dims.index("lev")
    flat = lambda key, m: spread(rng, [[F(c[key]) * m] * len(lev) for c in cs], dims, levdim, lev)[0].take(0, axis=ax)
    hn = [d for d in names if d != levdim]
    hc = {d: co[d] for d in hn}
    ps = xr.DataArray(flat("ps", fac[sunit]), dims=hn, coords=hc, attrs={"units": sunit})
    gp = xr.DataArray(flat("zs", 9.80665), dims=hn, coords=hc, attrs={"units": "m**2 s**-2"})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res, err = call(height_from_pressure, {"vertical_dim_name": levdim}, gp, ps, T, RH)
    if not err and (res.dims != tuple(names) or res.attrs.get("units") != "meter"):
        err = "shape"
    return [{"op": "height", "c": c, "err": err or "", "out": [] if err else [num(x) for x in res.values[w]]} for c, w in zip(cs, where)]


def column(rng, n, scale):
    z = sorted(rng.sample(range(0, 400), n))
    z = [Fraction(x * scale, 8) for x in z]
    f = [Fraction(rng.randint(-400, 400), 8) for _ in z]
    b = rng.choice([0, 0, 0, rng.randint(0, n - 1)])
    zz = ["none" if k < b else num(float(x)) for k, x in enumerate(z)]
    ff = [num(float(x)) for x in f]
    if rng.random() < .15:
        ff[rng.randrange(n)] = "none"
    return zz, ff


def script_events(ctx, rng):
    """the program on a file of pressure levels: heights in the file, interpolation, written file"""
    import netCDF4, yaml
    d = os.path.join(ctx.tmp, "vi%d" % rng.randrange(10 ** 9))
    os.makedirs(d)
    nlev, nlat, nlon = rng.choice([2, 3, 5]), 2, rng.choice([1, 3])
    cols = [column(rng, nlev, 40) for _ in range(nlat * nlon)]
    cols = [([x if x != "none" else num(float(-8000 + 10 * k)) for k, x in enumerate(z)], [x if x != "none" else "1.5" for x in f]) for z, f in cols]
    at = sorted({num(rng.randint(0, 16000) / 8) for _ in range(3)} | {cols[0][0][-1]}, key=F)
    atunit = rng.choice(["m", "km", "ft"])
    at = at if atunit == "m" else [num(F(x) / (1000 if atunit == "km" else 1)) for x in at]
    with netCDF4.Dataset(os.path.join(d, "in.nc"), "w") as ds:
        for n, k in (("plev", nlev), ("lat", nlat), ("lon", nlon)):
            ds.createDimension(n, k)
        for n, vals in (("plev", np.arange(nlev)[::-1] * 100.0 + 100), ("lat", np.arange(nlat) * 10.0), ("lon", np.arange(nlon) * 10.0)):
            v = ds.createVariable(n, "f8", (n,))
            v[:] = vals
        h = ds.createVariable("gh", "f8", ("plev", "lat", "lon"))
        h.units = "m"
        t = ds.createVariable("T", "f8", ("plev", "lat", "lon"))
        t.units = "K"
        h[:] = np.array([[F(x) for x in c[0]] for c in cols]).T.reshape(nlev, nlat, nlon)
        t[:] = np.array([[F(x) for x in c[1]] for c in cols]).T.reshape(nlev, nlat, nlon)
    with open(os.path.join(d, "c.yaml"), "w") as f:
        yaml.safe_dump({"height_from_pressure": False, "vertical_coord_type_in": "pressure", "vertical_coord_type_out": "height",
                        "geopotential_height_name": "gh", "vertical_dim_name": "plev", "vertical_levels": [F(x) for x in at],
                        "vertical_level_units": atunit, "fields": ["T"]}, f)
    p = subprocess.run([sys.executable, "-B", os.path.join(REPO, "metcalcpy", "vertical_interp.py"), "--datadir", d, "--input", "in.nc", "--config",
                        os.path.join(d, "c.yaml"), "--output", "out.nc"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=d,
                       env=dict(os.environ, PYTHONPATH=REPO), timeout=300)
    err, out = "", None
    if p.returncode:
        err = "exc:exit%d" % p.returncode
        if os.environ.get("VERIF_TB"):
            sys.stderr.write(p.stderr)
    else:
        with netCDF4.Dataset(os.path.join(d, "out.nc")) as ds:
            out = np.ma.filled(ds["T"][:].astype(float), float("nan")).reshape(len(at), -1)
    return [{"op": "script", "z": z, "f": f, "at": at, "atunit": atunit, "zunit": "m", "tol": EXACT, "err": err,
             "out": [] if err else [num(x) for x in out[:, k]]} for k, (z, f) in enumerate(cols)]


def run(ctx):
    rng = ctx.rng
    cases = ctx.model("MC_Vertical", consts={"N": "4"})
    by = {}
    for c in cases:
        by.setdefault((c["op"], len(c["z"])), []).append(c)
    ev = []
    for (op, n), cs in sorted(by.items()):
        rng.shuffle(cs)
        if op == "interp":
            cs = cs[:ctx.scale(400, len(cs))]
            for k in range(0, len(cs), 60):
                ev += interp_events(rng, [(c["z"], c["f"]) for c in cs[k:k + 60]], cs[0]["at"])
        else:
            for k in range(0, len(cs), 8):
                ev += height_events(rng, [c["c"] for c in cs[k:k + 8]])
    for _ in range(ctx.scale(60, 600)):
        n = rng.choice([1, 2, 3, 5, 9])
        zunit, atunit = rng.choice([("m", "m"), ("m", "km"), ("km", "m"), ("m", "ft"), ("m", "cm"), ("ft", "km"), ("meter", "kilometer"), ("Pa", "hPa")])
        cols = [column(rng, n, rng.choice([1, 7, 40])) for _ in range(rng.choice([1, 4, 9]))]
        fac = {"m": 1, "meter": 1, "km": 1000, "kilometer": 1000, "ft": .3048, "cm": .01, "Pa": 1, "hPa": 100}
        at = [rng.uniform(-100, 2100) for _ in range(3)] + [F(x) for x in cols[0][0] if x != "none"][:2]
        at = sorted({num(x if zunit == atunit else round(x * fac[zunit] / fac[atunit], 6)) for x in at}, key=F)
        if zunit != atunit:             # conversion rounding must not move a level across a surface
            at = [a for a in at if all(z == "none" or abs(F(a) * fac[atunit] / fac[zunit] - F(z)) > 1e-6 for c in cols for z in c[0])] or ["1"]
        single = rng.random() < .15
        if single:
            at = [num(rng.randint(0, 2000)) for _ in range(3)]
            if zunit != atunit:
                zunit = atunit = "m"
        ev += interp_events(rng, cols, at, atunit, zunit, np.float32 if single else float)
    for _ in range(ctx.scale(25, 250)):
        n = rng.choice([1, 2, 4, 7])
        p = sorted(rng.sample(range(100, 1050, 25), n), reverse=True)
        cs = []
        for _ in range(rng.choice([1, 5])):
            ps = rng.choice([p[0] + 10, rng.randint(500, 1060), rng.randint(500, 1060), rng.choice(p)])
            cs.append({"p": [str(x) for x in p], "ps": str(ps), "zs": num(rng.choice([0, rng.randint(0, 3000)])),
                       "t": [num(rng.randint(2000, 3100) / 10) for _ in p], "rh": [num(rng.choice([0, 1, .5, .25, .75])) for _ in p]})
        ev += height_events(rng, cs)
    for _ in range(ctx.scale(2, 12)):
        ev += script_events(ctx, rng)
    ctx.judge("TV_Vertical", ev)
