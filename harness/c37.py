"""C37: files of gridded results and winds around a storm."""
import itertools, os, subprocess, sys, time, types, warnings
from concurrent.futures import ThreadPoolExecutor
from datetime import datetime
from fractions import Fraction
import numpy as np
from vlib import num, call, REPO

F = lambda x: float(Fraction(x))
ORDER = ("range", "azimuth", "pressure", "track_point")
ARGS = types.SimpleNamespace(T="TMP", u="UGRD", v="VGRD", RH="RH")


def storm(rng, azs, u=None, v=None):
    """dataset in some order of axes"""
    import xarray as xr
    n = {"range": rng.choice([2, 3, 4]), "azimuth": len(azs), "pressure": rng.choice([2, 3]), "track_point": rng.choice([1, 2])}
    dims = list(ORDER)
    if rng.random() < .7:
        dims = rng.choice([["track_point", "pressure", "range", "azimuth"], rng.sample(dims, 4)])
    q = lambda: np.array([rng.randint(-400, 400) / 8 for _ in range(int(np.prod([n[d] for d in dims])))]).reshape([n[d] for d in dims])
    vals = {"range": np.arange(n["range"]) + 1.0, "azimuth": np.array([F(a) for a in azs]), "pressure": np.array([850.0, 700, 500])[:n["pressure"]], "track_point": np.arange(n["track_point"])}
    ds = xr.Dataset()
    for name in ("UGRD", "VGRD", "TMP"):
        ds[name] = xr.DataArray(q(), dims=dims)
    if u is not None:
        ax = dims.index("azimuth")
        sh = [-1 if k == ax else 1 for k in range(4)]
        ds["UGRD"] = xr.DataArray(np.broadcast_to(np.array([F(x) for x in u]).reshape(sh), ds["TMP"].shape).copy(), dims=dims)
        ds["VGRD"] = xr.DataArray(np.broadcast_to(np.array([F(x) for x in v]).reshape(sh), ds["TMP"].shape).copy(), dims=dims)
    ds["RMW"] = xr.DataArray(np.arange(n["track_point"]) + 20.0, dims="track_point")
    ds["TrackLines"] = xr.DataArray(np.arange(4.0), dims="track_line")
    for c in rng.sample(ORDER, 4):
        ds.coords[c] = vals[c]
    return ds


def at(d, **k):
    return num(d.sel(**k).values)


def points(rng, ds, ur, ut, limit):
    """ur, ut over the fixed order"""
    pts = []
    idx = list(np.ndindex(*[ds.sizes[d] for d in ORDER]))
    for i in rng.sample(idx, min(limit, len(idx))):
        sel = dict(zip(ORDER, i))
        pts.append({"az": num(ds["azimuth"].values[i[1]]), "u": num(ds["UGRD"].isel(**sel).values), "v": num(ds["VGRD"].isel(**sel).values), "r": num(ur[i]), "t": num(ut[i])})
    return pts


def wind_event(rng, ds):
    from metcalcpy.process_tcrmw import compute_wind_components
    res, err = call(compute_wind_components, ARGS, ds.transpose(*ORDER, "track_line"))
    if not err and any(np.shape(x) != tuple(ds.sizes[d] for d in ORDER) for x in res):
        err = "shape"
    return {"op": "winds", "err": err or "", "pts": [] if err else points(rng, ds, np.asarray(res[0]), np.asarray(res[1]), 40)}


def read_event(ctx, rng, ds):
    from metcalcpy.process_tcrmw import read_tcrmw
    p = os.path.join(ctx.tmp, "s%d.nc" % rng.randrange(10 ** 9))
    ds.to_netcdf(p)
    got, err = call(lambda: read_tcrmw(p).load())
    e = {"op": "storm", "err": err or "", "dims": [], "out": [], "val": []}
    if not err:
        e["dims"] = list(map(str, got["TMP"].dims))
        for i in itertools.islice(np.ndindex(*[ds.sizes[d] for d in ORDER]), 40):
            sel = {d: ds[d].values[k] for d, k in zip(ORDER, i)}
            e["val"].append(at(ds["TMP"], **sel))
            e["out"].append(at(got["TMP"], **sel))
        got.close()
    os.unlink(p)
    return e


def script_events(ctx, rng, n):
    """the whole program; only the runs themselves are parallel (the file library is not)"""
    import xarray as xr
    runs = []
    for k in range(n):
        ds = storm(rng, [num(x) for x in np.arange(4) * 90.0])
        d = os.path.join(ctx.tmp, "run%d" % k)
        os.makedirs(d)
        other = rng.random() < .5
        ds.rename({"UGRD": "uu", "VGRD": "vv", "TMP": "tt"} if other else {}).to_netcdf(os.path.join(d, "in.nc"))
        runs.append((ds, d, ["--u", "uu", "--v", "vv", "--T", "tt"] if other else []))
    one = lambda r: subprocess.run([sys.executable, "-B", os.path.join(REPO, "metcalcpy", "process_tcrmw.py"), "--datadir", r[1], "--input", "in.nc", "--output", "out.nc"] + r[2],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=r[1], env=dict(os.environ, PYTHONPATH=REPO, MPLBACKEND="Agg"), timeout=300)
    with ThreadPoolExecutor(4) as ex:
        done = list(ex.map(one, runs))
    ev = []
    for (ds, d, _), p in zip(runs, done):
        out = os.path.join(d, "out.nc")
        if p.returncode or not os.path.exists(out):
            ev.append({"op": "winds", "err": "exit %d %s" % (p.returncode, p.stderr[-200:]), "pts": []})
            continue
        with xr.open_dataset(out) as o:
            ur, ut = [o[k].transpose(*ORDER).values for k in ("u_radial", "u_tangential")]
        ev.append({"op": "winds", "err": "", "pts": points(rng, ds, ur, ut, 40)})
    return ev


def stamp(rng):
    return datetime(rng.choice([1999, 2000, 2004, 2017, 2020, 2023]), rng.choice([1, 2, 3, 6, 7, 12]), rng.randint(1, 28), rng.choice([0, 6, 12, 18, 23]), rng.choice([0, 0, 30]))


def civil(t):
    return {"y": t.year, "m": t.month, "d": t.day, "h": t.hour, "min": t.minute}


class zone:
    """a local time zone for the duration of a call"""
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.old = os.environ.get("TZ")
        os.environ["TZ"] = self.name
        time.tzset()

    def __exit__(self, *a):
        if self.old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = self.old
        time.tzset()


def file_event(ctx, rng):
    import netCDF4, xarray as xr
    from metcalcpy.vertical_interp import write_dataset
    dims = rng.choice([["lat", "lon"], ["lev", "lat", "lon"], ["lat", "lev", "lon"], ["time", "lat"], ["time", "lev", "lat", "lon"], ["x"]])
    size = {d: rng.randint(1, 4) for d in dims}
    if dims == ["lev", "lat", "lon"] and rng.random() < .5:
        size = {d: 3 for d in dims}
    ds = xr.Dataset()
    valid = "time" not in dims and rng.random() < .5
    t0, lead = stamp(rng), rng.choice([0, 6, 36, 240])
    if valid:
        # they come first or last, as plain values
        ns = np.datetime64(t0, "ns")
        late = rng.random() < .3
        times = {"valid_time": ns + np.timedelta64(lead, "h"), "init_time": ns}
        if not late:
            for k, v in times.items():
                ds[k] = v
    axes, coords = [], {}
    for d in dims:
        if d == "time":
            step = rng.choice([1, 6, 24])
            ts = [np.datetime64(t0, "ns") + np.timedelta64(step * k, "h") for k in range(size[d])]
            coords[d] = np.array(ts)
            axes.append({"name": d, "stamps": [civil(x.astype("datetime64[s]").item()) for x in ts], "val": []})
        else:
            c = (np.array(rng.sample(range(-80, 80), size[d])) / rng.choice([1, 2])).astype(rng.choice(["f8", "f4", "f8", "i4", "i8"]))
            coords[d] = c
            axes.append({"name": d, "val": [num(x) for x in c], "stamps": []})
    fields = []
    for name in rng.sample(["T", "q", "mask", "u10", "hgt"], rng.randint(1, 4)):
        fd = dims if rng.random() < .7 else rng.sample(dims, rng.randint(1, len(dims)))
        ty = rng.choice(["float64", "float64", "float32", "int32", "int64", "uint32", "bool"])
        raw = np.array([rng.randint(0, 1) if ty == "bool" else rng.randint(0, 900) if ty[0] == "u" else rng.randint(-900, 900) for _ in range(int(np.prod([size[d] for d in fd])))], dtype=float)
        if ty[0] == "f":
            raw /= 8
            if rng.random() < .3:
                raw[rng.randrange(len(raw))] = np.nan
        at_ = {k: v for k, v in (("units", "K"), ("long_name", "some field"), ("level", "850")) if rng.random() < .5}
        ds[name] = xr.DataArray(raw.reshape([size[d] for d in fd]).astype(ty), dims=fd, coords={d: coords[d] for d in fd}, attrs=at_)
        fields.append({"name": name, "dims": fd, "type": ty, "val": [num(x) for x in raw], "attrs": sorted([k, v] for k, v in at_.items())})
    if valid and late:
        for k, v in times.items():
            ds[k] = v
    ds.attrs = {k: v for k, v in (("title", "run 7"), ("source", "model")) if rng.random() < .6}
    used = set(ds.dims)
    axes = [a for a in axes if a["name"] in used]
    kw = {}
    if valid or rng.random() < .3:
        kw["create_time_dim"] = valid
    ref = stamp(rng)
    hasref = rng.random() < .5
    if hasref:
        txt = ref.strftime("%Y%m%d%H") + rng.choice(["", "", "00"])
        kw["forecast_reference_time"] = rng.choice([txt, int(txt)])
        ref = ref.replace(minute=0)
    p = os.path.join(ctx.tmp, "f%d.nc" % rng.randrange(10 ** 9))

    def go():
        with netCDF4.Dataset(p, "w") as o, warnings.catch_warnings(), zone(rng.choice(["UTC0", "MST7MDT", "JST-9", "XST3:30"])):
            warnings.simplefilter("ignore")
            write_dataset(ds, o, **kw)
    _, err = call(go)
    e = {"op": "file", "err": err or "", "axes": axes, "fields": fields, "valid": valid, "validat": civil(t0), "initat": civil(t0), "hasref": hasref, "refat": civil(ref),
         "lead": [], "leadfrom": {}, "ref": [], "names": [], "outnames": [], "attrs": sorted([k, v] for k, v in ds.attrs.items()), "outattrs": []}
    if valid:
        e["validat"] = civil(times["valid_time"].astype("datetime64[s]").item())
    if not err:
        try:
            with netCDF4.Dataset(p) as o:
                o.set_auto_mask(False)
                for a in axes:
                    a["out"] = [num(x) for x in o[a["name"]][:]]
                for f in fields:
                    v = o[f["name"]]
                    f.update(outdims=list(v.dimensions), outtype=str(v.dtype), out=[num(x) for x in np.ravel(v[:])], outattrs=sorted([k, str(v.getncattr(k))] for k in v.ncattrs()))
                e["outattrs"] = sorted([k, str(o.getncattr(k))] for k in o.ncattrs())
                e["outnames"] = sorted(o.variables)
                if valid:
                    v = o["valid_time"]
                    e["lead"] = [num(x) for x in v[:]]
                    e["leadfrom"] = civil(netCDF4.num2date(0, v.units))
                if hasref:
                    v = o["forecast_reference_time"]
                    base = netCDF4.num2date(0, v.units)
                    e["ref"] = [num(x) for x in v[:]] if (base.year, base.month, base.day, base.hour) == (1970, 1, 1, 0) else []
        except (KeyError, IndexError, AttributeError) as x:
            e["err"] = "file lacks " + str(x)
    e["names"] = sorted([a["name"] for a in axes] + [f["name"] for f in fields] + (["valid_time", "init_time"] if valid else []) + (["forecast_reference_time"] if hasref else []))
    if os.path.exists(p):
        os.unlink(p)
    return e


def run(ctx):
    rng = ctx.rng
    ev = []
    cases = ctx.model("MC_NcOut", consts={"Years": ctx.scale(60, 400)})
    rng.shuffle(cases)
    for k in range(0, len(cases), 8):
        part = cases[k:k + 8]
        ev.append(wind_event(rng, storm(rng, [c["az"] for c in part], [c["u"] for c in part], [c["v"] for c in part])))
    for _ in range(ctx.scale(80, 800)):
        n = rng.choice([1, 4, 6])
        azs = [num(x) for x in sorted(rng.sample(range(0, 360, 5), n))]
        ev.append(wind_event(rng, storm(rng, azs)))
        if len(ev) % 2:
            ev.append(read_event(ctx, rng, storm(rng, azs)))
    for _ in range(ctx.scale(500, 5000)):
        ev.append(file_event(ctx, rng))
    ev += script_events(ctx, rng, ctx.scale(4, 20))
    ctx.judge("TV_NcOut", ev)
