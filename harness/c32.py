"""C32: blocked longitudes, their groups and persistent blocks."""
import contextlib, io, os, warnings
import numpy as np
from vlib import num, call

LON = np.arange(360)
KEYS = {"smooth": "_SMOOTHING_PTS", "deltas": "_LAT_DELTA", "limits": "_NORTH_SOUTH_LIMITS", "dist": "_IBL_DIST", "crit": "_IBL_IN_GIBL", "overlap": "_GIBL_OVERLAP", "travel": "_BLOCK_TRAVEL"}

DEFAULT = {"smooth": 9, "deltas": "-5,0,5", "limits": 30, "dist": 7, "crit": 15, "overlap": 10, "travel": 45}


def calc(**kw):
    from metcalcpy.contributed.blocking_weather_regime.Blocking import BlockingCalculation
    env = {"CHK" + KEYS[k]: str(x) for k, x in kw.items() if DEFAULT.get(k) != x}
    os.environ.update(env)
    try:
        return BlockingCalculation("CHK")
    finally:
        for k in env:
            del os.environ[k]


def quiet(fn):
    def go():
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn()
    return call(go, limit=120)


def mask(runs):
    a = np.zeros(360)
    for r in runs:
        a[[(r["s"] + k) % 360 for k in range(r["n"])]] = 1
    return a


def runs_of(a):
    """maximal circular runs of equal values other than zero"""
    if (a == a[0]).all():
        return [{"s": 0, "n": 360, "v": num(a[0])}] if a[0] else []
    cut = next(k for k in range(360) if a[k] != a[k - 1])
    out = []
    for j in range(360):
        k = (cut + j) % 360
        if a[k] != a[k - 1]:
            if a[k]:
                out.append({"s": k, "n": 1, "v": num(a[k])})
        elif a[k]:
            out[-1]["n"] += 1
    return out


def group_event(seasons, dist, crit):
    """seasons of days of runs; one event per season"""
    b = calc(dist=dist, crit=crit)
    ibl = np.array([[mask(d) for d in days] for days in seasons])
    g, err = quiet(lambda: b.run_Calc_GIBL(ibl, LON))
    for y, days in enumerate(seasons):
        yield {"op": "groups", "dist": dist, "crit": crit, "days": days, "err": err or "", "out": [] if err else [runs_of(g[y, d]) for d in range(len(days))]}


def rand_runs(rng, crit, dist, least=0):
    """disjoint runs that do not touch, around the circle from any place"""
    out, pos, start = [], 0, rng.choice([0, 1, 344, 350, 359, rng.randrange(360)])
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        n = max(least, rng.choice([1, 2, dist, crit - 1, crit, crit + 1, rng.randint(1, 60)]))
        gap = rng.choice([1, dist - 1, dist, dist + 1, rng.randint(1, 40)]) if not least else rng.randint(dist + 1, 60)
        if pos + n + gap > 350:
            break
        out.append({"s": (start + pos) % 360, "n": n})
        pos += n + max(1, gap)
    return out


def ordered(groups):
    return sorted(groups, key=lambda g: (g["day"], (g["s"] + g["n"] - 1) % 360))


def block_event(seasons, ndays, overlap, travel, crit=15):
    b = calc(overlap=overlap, travel=travel, crit=crit)
    g = np.zeros((len(seasons), ndays, 360))
    for y, gs in enumerate(seasons):
        for x in gs:
            g[y, x["day"]] += mask([x])
    f, err = quiet(lambda: b.run_Calc_Blocks(g.copy(), g, LON, None))
    out = []
    if not err:
        out = [[dict(r, day=d) for d in range(ndays) for r in runs_of(f[y, d])] for y in range(len(seasons))]
    return {"op": "blocks", "overlap": overlap, "travel": travel, "seasons": [ordered(s) for s in seasons], "err": err or "", "out": out}


def rand_season(rng, ndays, crit, overlap):
    days = {}
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        d, s, n = rng.randint(0, ndays - 1), rng.choice([340, 350, rng.randrange(360)]), rng.randint(crit, crit + 20)
        drift = rng.choice([0, 1, 4, -3, n - overlap - 1, n - overlap, 8])
        for _ in range(rng.choice([2, 4, 5, 6, 9, 14])):
            if d >= ndays:
                break
            r = {"s": s % 360, "n": max(crit, n + rng.randint(-2, 2)), "day": d}
            near = {(r["s"] + k - 1) % 360 for k in range(r["n"] + 2)}
            if not any(near & {(q["s"] + k) % 360 for k in range(q["n"])} for q in days.get(d, [])):
                days.setdefault(d, []).append(r)
            s += drift
            d += rng.choice([1, 1, 1, 1, 2, 3]) if rng.random() < .4 else 1
    return [r for d in days for r in days[d]]


# ---- fields through their files
def write(path, var, lats, field, when):
    import netCDF4
    with netCDF4.Dataset(path, "w") as nc:
        nc.createDimension("lat", len(lats))
        nc.createDimension("lon", 360)
        for n, x in (("lat", lats), ("lon", LON)):
            nc.createVariable(n, "f8", (n,))[:] = x
        v = nc.createVariable(var, "f8", ("lat", "lon"), fill_value=-9999.)
        v[:] = np.ma.masked_invalid(field)
        v.init_time, v.valid_time = when + "_000000", when + "_120000"


def files(ctx, var, lats, fields):
    """fields[season][day]; None is a missing file"""
    names = []
    for y, season in enumerate(fields):
        for d, f in enumerate(season):
            if f is None:
                names.append("missing")
            else:
                names.append(os.path.join(ctx.tmp, f"z{y}_{d}.nc"))
                write(names[-1], var, lats, f, f"20{10 + y}01{d + 1:02d}")
    return names


def opt(x):
    return "none" if np.isnan(x) else num(x)


def draw(rng, ny, nd, nlat, missing):
    g = np.random.default_rng(rng.randrange(2 ** 32))
    f = [[np.round(5400 + 300 * g.standard_normal((nlat, 360)) * (1 if nlat < 40 else .05)) for _ in range(nd)] for _ in range(ny)]
    if missing and nd > 2:
        for s in f:
            if rng.random() < .5:
                s[rng.randrange(nd)] = None
        for s in f:
            for a in s:
                if a is not None and rng.random() < .5:
                    a[:, rng.randrange(360)] = np.nan
                    a[rng.randrange(nlat), :5] = np.nan
        if f[0][0] is None and all(x is None for s in f for x in s):
            f[0][0] = np.zeros((nlat, 360))
    return f


def central(ctx):
    rng = ctx.rng
    lats = sorted(rng.sample(range(20, 80), rng.choice([4, 8])), reverse=rng.random() < .7)
    ny, nd, sm = rng.choice([1, 2]), rng.choice([3, 5]), rng.choice([1, 3, 9])
    fields = draw(rng, ny, nd, len(lats), True)
    b = calc(smooth=sm)
    r, err = quiet(lambda: b.run_CBL(files(ctx, "Z500_ANA", lats, fields), ny, nd))
    if err:
        yield {"op": "central", "err": err}
        return
    cbl, _, _, w, times = r
    for _ in range(6):
        y, j, k = rng.randrange(ny), rng.choice([0, 1, 358, 359, rng.randrange(360)]), rng.randrange(len(lats))
        yield {"op": "variability", "err": "", "vals": ["none" if f is None else opt(f[k, j]) for f in fields[y]], "lat": num(lats[k]), "out": opt(w[y, k, j])}
        h = (sm - 1) // 2
        yield {"op": "central", "err": "", "lon": num(j), "lats": [num(x) for x in lats], "window": [[opt(x) for x in w[y, :, (j + i) % 360]] for i in range(-h, h + 1)],
               "out": num(cbl[y, j])}


def instant(ctx):
    rng = ctx.rng
    lats = np.arange(90, 14, -1)
    ny, nd = rng.choice([1, 2]), rng.choice([1, 3])
    half = rng.choice([15, 15, 10])
    deltas = rng.choice([[-5, 0, 5], [-5, 0, 5], [0], [-3, 3], [4]])
    fields = draw(rng, ny, nd, len(lats), True)
    for s in fields:                                            # columns without any gradient
        for a in s:
            if a is not None and rng.random() < .5:
                a[:, rng.sample(range(360), 120) + [0, 359]] = 5400
            elif a is not None:                                 # one height decides
                for j in range(360):
                    a[rng.choice([0, 0, len(lats) - 1, rng.randrange(len(lats))]), j] = rng.choice([-90000, 90000])
    cbls = np.array([[float(rng.choice([36, 70, rng.randint(36, 70)])) for _ in range(360)] for _ in range(rng.choice([1, 2, 3]))])
    b = calc(deltas=",".join(map(str, deltas)), limits=2 * half)
    r, err = quiet(lambda: b.run_Calc_IBL(cbls, files(ctx, "Z500", lats, fields), ny, nd))
    if err:
        yield {"op": "instant", "err": err}
        return
    for _ in range(20):
        y, d, j = rng.randrange(ny), rng.randrange(nd), rng.choice([0, 359, rng.randrange(360)])
        f = fields[y][d]
        from fractions import Fraction
        mean = sum(Fraction(x) for x in cbls[:, j]) / len(cbls)
        yield {"op": "instant", "err": "", "col": ["none"] * len(lats) if f is None else [opt(x) for x in f[:, j]], "cbl": num(mean), "deltas": deltas, "half": half,
               "out": num(r[0][y, d, j])}


def run(ctx):
    rng = ctx.rng
    events = []
    cases = ctx.model("MC_Blocking")
    byset = {}
    for c in cases:
        if c["op"] == "groups":
            byset.setdefault((c["dist"], c["crit"]), []).append(c["runs"])
    for (dist, crit), rs in byset.items():
        if not ctx.thorough:
            rs = rng.sample(rs, min(len(rs), 400))
        for k in range(0, len(rs), 20):
            # every layout alone in its day; an empty day in between
            events += group_event([rs[k:k + 20]], dist, crit)
    bl = [c["gs"] for c in cases if c["op"] == "blocks"]
    for gs in bl if ctx.thorough else rng.sample(bl, 350):
        events.append(block_event([gs], 9, 10, 45))
    for _ in range(ctx.scale(120, 1000)):
        dist, crit = rng.choice([(7, 15), (7, 15), (3, 15), (9, 15), (7, 10), (4, 20)])
        events += group_event([[rand_runs(rng, crit, dist) for _ in range(12)] for _ in range(rng.choice([1, 2]))], dist, crit)
    for _ in range(ctx.scale(900, 8000)):
        nd, crit, over = rng.choice([6, 12, 25]), rng.choice([15, 15, 12]), rng.choice([10, 10, 5])
        events.append(block_event([rand_season(rng, nd, crit, over) for _ in range(rng.choice([1, 2, 3]))], nd, over, rng.choice([45, 45, 20, 90]), crit))
    for _ in range(ctx.scale(25, 150)):
        events += central(ctx)
    for _ in range(ctx.scale(25, 150)):
        events += instant(ctx)
    ctx.judge("TV_Blocking", events, key=lambda e, c: e["op"] + ":" + c.split(" ")[0])
