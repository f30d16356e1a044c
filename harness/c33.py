"""C33: weather regimes: anomalies, components, classes, counts, matching and files."""
import contextlib, io, os, warnings
import numpy as np
from vlib import num, call

KEYS = {"k": "_WR_NUMBER", "clusters": "_NUM_CLUSTERS", "pcs": "_NUM_PCS", "w": "_WR_FREQ", "type": "_WR_OUTPUT_FILE_TYPE", "file": "_WR_OUTPUT_FILE"}


def calc(ctx, **kw):
    env = {"CHK" + KEYS[k]: str(x) for k, x in kw.items()}
    env["SCRIPT_OUTPUT_BASE"] = ctx.tmp
    os.environ.update(env)
    try:
        from metcalcpy.contributed.blocking_weather_regime.WeatherRegime import WeatherRegimeCalculation
        return WeatherRegimeCalculation("CHK")
    finally:
        for k in env:
            del os.environ[k]


def quiet(fn):
    def go():
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn()
    return call(go, limit=120)


def nums(a):
    return [num(x) for x in np.asarray(a).ravel()]


def field(rng, shape, trend=True):
    g = np.random.default_rng(rng.randrange(2 ** 32))
    x = g.integers(-20, 21, shape).astype(float)
    if trend:
        x += g.integers(-9, 10, shape[1:]) * np.arange(shape[0]).reshape(-1, 1, 1, 1)
    return x


def anomaly(ctx):
    rng = ctx.rng
    S, D, la, lo = rng.choice([1, 2, 3, 5, 8]), rng.choice([1, 2, 4]), rng.choice([1, 2, 3]), rng.choice([1, 2, 4])
    x = field(rng, (S, D, la, lo), rng.random() < .8)
    lats = np.array([float(rng.choice([0, 30, 60, 45, -30, rng.randint(-89, 89)])) for _ in range(la)])
    two = rng.random() < .3
    arg = np.repeat(lats[:, None], lo, axis=1) + (np.arange(lo) if two else 0)
    r, err = quiet(lambda: calc(ctx).weights_detrend(arg if two else lats, np.arange(float(lo)), x.copy()))
    if err:
        yield {"op": "anomaly", "err": err}
        return
    a, f = r
    for _ in range(5):
        d, i, j = rng.randrange(D), rng.randrange(la), rng.randrange(lo)
        yield {"op": "anomaly", "err": "", "vals": nums(x[:, d, i, j]), "lat": num(arg[i, j]), "out": nums(a[:, d, i, j]),
               "flat": [num(f[s * D + d, i * lo + j]) for s in range(S)]}


def eof(ctx):
    rng = ctx.rng
    S, D, la, lo = rng.choice([3, 4, 5]), rng.choice([1, 2, 3]), rng.choice([1, 2]), rng.choice([2, 3])
    x = field(rng, (S, D, la, lo))
    rank = min((S - 2) * D, la * lo)
    k = rng.choice([rank, rng.randint(1, rank)])
    c = calc(ctx, pcs=k, k=3)

    def go():
        e, p, n, v = c.Calc_EOF(x.copy())
        return e, p, v, c.reconstruct_heights(e, p, x.shape)
    r, err = quiet(go)
    if err:
        return {"op": "eof", "err": err}
    e, p, v, rec = r
    return {"op": "eof", "err": "", "x": [[nums(x[s, d]) for s in range(S)] for d in range(D)], "full": k == rank, "eof": [nums(q) for q in e], "pc": [nums(q) for q in p],
            "share": nums(v), "rec": [nums(q) for q in rec]}


def classes(ctx):
    rng = ctx.rng
    k = rng.choice([2, 3, 4])
    S, D, la, lo = rng.choice([1, 2, 3]), rng.choice([5, 8]), 1, rng.choice([2, 3])
    if rng.random() < .3:
        la, lo = lo, la
    centre = [[rng.randrange(-4, 5) * 30 + 200 * c * (j == 0) for j in range(la * lo)] for c in range(k)]
    pts = np.array([[x + rng.randint(-2, 2) for x in centre[rng.choice([0, 0, 0, 1, 1, k - 1, rng.randrange(k)]) if t >= k else t]] for t in range(S * D)], dtype=float)
    order = list(range(S * D))
    rng.shuffle(order)
    pts = pts[order]
    c = calc(ctx, k=k)
    r, err = quiet(lambda: c.run_K_means(pts.copy(), {}, (S, D, la, lo)))
    if err:
        return {"op": "classes", "err": err}
    pat, n, perc, lab = r
    return {"op": "classes", "err": "", "k": int(n), "pts": [nums(p) for p in pts], "pat": [nums(p) for p in pat], "perc": nums(perc), "lab": [int(x) for x in lab.ravel()]}


def elbow(ctx):
    rng = ctx.rng
    n = rng.choice([3, 4, 6, 8])
    pts = np.array([[rng.randint(-5000, 5000) for _ in range(2)] for _ in range(rng.randint(n, 14))], dtype=float)
    c = calc(ctx, clusters=n, k=2)
    r, err = quiet(lambda: c.run_elbow(pts.copy()))
    if err:
        return {"op": "elbow", "err": err}
    K, d, mi, line, curve = r
    return {"op": "elbow", "err": "", "k": n, "sizes": [int(x) for x in K], "pts": [nums(p) for p in pts], "d": nums(d), "mi": [int(x) for x in mi], "line": nums(line), "curve": nums(curve)}


def freq(ctx, labs, w, k):
    c = calc(ctx, w=w, k=k)
    r, err = quiet(lambda: c.compute_wr_freq(np.array(labs, dtype=float)))
    if err:
        return {"op": "freq", "err": err}
    return {"op": "freq", "err": "", "lab": labs, "w": w, "k": k, "out": [[nums(y) for y in x] for x in r[0]], "n": int(r[1]), "step": int(r[2])}


def reorder(ctx, pats, perc, labs, order=None, obs=None):
    from metcalcpy.contributed.blocking_weather_regime import Blocking_WeatherRegime_util as u
    p, q, w = np.array(pats, dtype=float), np.array(perc, dtype=float), np.array(labs, dtype=float)
    # fill the allocator's recent blocks so that unwritten results show
    junk = [np.full(w.shape, 77.25) for _ in range(8)]
    del junk
    if order:
        r, err = quiet(lambda: u.reorder_fcst_regimes(p, q, w, len(perc), list(order)))
    else:
        r, err = quiet(lambda: u.reorder_fcst_regimes_correlate(np.array(obs, dtype=float), p, q, w, len(perc)))
    e = {"op": "reorder" if order else "match", "err": err or "", "order": order or [], "obs": [nums(o) for o in obs or []], "pat": [nums(x) for x in p], "perc": nums(q), "lab": [int(x) for x in w.ravel()]}
    if not err:
        e.update(pat2=[nums(x) for x in r[0]], perc2=nums(r[1]), lab2=nums(r[2]))
    return e


def matches(ctx, cases):
    rng = ctx.rng
    for c in cases:
        n = len(c.get("order") or c["obs"])
        perc = [0.5, 0.3, 0.2]
        if c["op"] == "reorder":
            yield reorder(ctx, [[[k, 2 * k]] for k in range(n)], perc, [c["lab"]], order=c["order"])
        else:
            yield reorder(ctx, [[list(map(int, m))] for m in c["fc"]], perc, [[1, 2, 3], [3, 1, 1]], obs=[[list(map(int, m))] for m in c["obs"]])
    for _ in range(ctx.scale(60, 600)):
        n, la, lo = rng.choice([2, 3, 4]), rng.choice([1, 2, 3]), rng.choice([2, 3, 4])
        if la * lo < 3:
            lo = 3
        draw = lambda: [[[rng.randint(-9, 9) for _ in range(lo)] for _ in range(la)] for _ in range(n)]
        pats, obs = draw(), draw()
        if rng.random() < .5:
            obs = [[[x + rng.randint(-2, 2) for x in r] for r in m] for m in rng.sample(pats, n)]
        if any(len({x for r in m for x in r}) < 2 for m in pats + obs):
            continue
        perc = sorted((rng.randint(1, 20) / 32 for _ in range(n)), reverse=True)
        labs = [[rng.randint(1, n) for _ in range(5)] for _ in range(rng.choice([1, 2]))]
        order = list(range(1, n + 1))
        rng.shuffle(order)
        yield reorder(ctx, pats, perc, labs, order=order)
        yield reorder(ctx, pats, perc, labs, obs=obs)


def table(ctx):
    import datetime
    rng = ctx.rng
    S, D = rng.choice([1, 2, 3]), rng.choice([1, 3, 6])
    kind = rng.choice(["text", "netcdf"])
    days = [[datetime.datetime(rng.randint(1979, 2021) if not d else 2000, 1, 1) for d in range(D)] for _ in range(S)]
    for s in range(S):
        first = datetime.datetime(1979 + 7 * s + rng.randint(0, 6), rng.choice([12, 1, 2, 11]), rng.randint(1, 28))
        days[s] = [first + datetime.timedelta(days=d) for d in range(D)]
    times = {"valid": np.array([[d.strftime("%Y%m%d") + "_" + rng.choice(["000000", "120000"]) for d in q] for q in days])}
    lab = np.array([[float(rng.randint(1, 6)) for _ in range(D)] for _ in range(S)])
    name = rng.choice(["regimes", "obs.v1"])
    c = calc(ctx, type=kind, file=name)
    path = os.path.join(ctx.tmp, name + (".txt" if kind == "text" else ".nc"))
    flat = [d for q in days for d in q]
    e = {"op": "table", "year": [str(d.year) for d in flat], "month": [str(d.month) for d in flat], "day": [str(d.day) for d in flat], "lab": nums(lab), "elapsed": [], "since": []}

    def go():
        # a second call replaces what the first one wrote
        if rng.random() < .5:
            c.write_K_means_file({"valid": times["valid"][:, :1]}, lab[:, :1] + 1)
        c.write_K_means_file(times, lab)
        if kind == "text":
            rows = [r.split() for r in open(path).read().splitlines() if not r.startswith("#")]
            return [[num(float(x)) for x in r] for r in rows]
        import netCDF4
        with netCDF4.Dataset(path) as nc:
            u = datetime.datetime.strptime(nc["time"].units, "days since %Y-%m-%d %H:%M:%S")
            e["elapsed"] = nums(np.asarray(nc["time"][:]))
            e["since"] = [num((d - u).total_seconds() / 86400) for d in flat]
            out = []
            for x, w in zip(nc["date"][:], nc["wrnum"][:]):
                x = int(x)
                out.append([num(x // 10000), num(x // 100 % 100), num(x % 100), num(w)])
            return out
    rows, err = quiet(go)
    if os.path.exists(path):
        os.remove(path)
    e.update(err=err or "", rows=rows or [])
    return e


def read(ctx):
    import datetime, netCDF4
    from metcalcpy.contributed.blocking_weather_regime.Blocking_WeatherRegime_util import read_nc_met
    rng = ctx.rng
    S, D, la, lo = rng.choice([1, 2]), rng.choice([2, 3]), rng.choice([1, 3]), rng.choice([2, 4])
    names, vals, want = [], [], []
    gone = {k for k in range(1, S * D) if rng.random() < .3}
    if rng.random() < .3 and S * D > 1:
        gone.add(0)
        gone.discard(1)
    for k in range(S * D):
        if k in gone:
            names.append("missing")
            vals += ["none"] * (la * lo)
            want.append(["", "", ""])
            continue
        init = datetime.datetime(2001, 12, 30, rng.choice([0, 12])) + datetime.timedelta(days=k)
        lead = rng.choice([0, 3600, 6 * 3600, 84 * 3600, 120 * 3600, 5400, 1800])
        a = np.array([[rng.randint(-50, 50) / 4 for _ in range(lo)] for _ in range(la)])
        m = np.array([[rng.random() < .15 for _ in range(lo)] for _ in range(la)])
        p = os.path.join(ctx.tmp, f"r{k}.nc")
        with netCDF4.Dataset(p, "w") as nc:
            nc.createDimension("lat", la)
            nc.createDimension("lon", lo)
            nc.createVariable("lat", "f8", ("lat",))[:] = np.arange(la)
            nc.createVariable("lon", "f8", ("lon",))[:] = np.arange(lo)
            v = nc.createVariable("HGT", "f4", ("lat", "lon"), fill_value=-9999.)
            v[:] = np.ma.masked_array(a, m)
            v.init_time, v.valid_time = init.strftime("%Y%m%d_%H%M%S"), (init + datetime.timedelta(seconds=lead)).strftime("%Y%m%d_%H%M%S")
            want.append([v.init_time, v.valid_time, "%02d%02d%02d" % (lead // 3600, lead // 60 % 60, lead % 60)])
        names.append(p)
        vals += ["none" if y else num(x) for x, y in zip(a.ravel(), m.ravel())]
    r, err = quiet(lambda: read_nc_met(names, "HGT", S, D))
    e = {"op": "read", "err": err or "", "vals": vals, "want": want, "out": [], "times": []}
    if not err:
        t = r[3]
        e["out"] = ["none" if x == "nan" else x for x in nums(r[0])]
        e["times"] = [[str(t[q][s][d]) for q in ("init", "valid", "lead")] for s in range(S) for d in range(D)]
    return e


def pairs(ctx):
    from metcalcpy.contributed.blocking_weather_regime.Blocking_WeatherRegime_util import write_mpr_file
    import shutil
    rng = ctx.rng
    S, D, n = rng.choice([1, 2]), rng.choice([1, 3]), rng.choice([1, 3, 5])
    w = lambda k: "".join(rng.choice("ABCxyz_") for _ in range(rng.choice([1, 3, k])))
    base = os.path.join(ctx.tmp, "mpr")
    os.makedirs(base)
    mk = lambda z: {"valid": [["" if z and rng.random() < .3 else f"20{s + 10}0{d + 1}12_{rng.choice(['00', '12'])}0000" for d in range(D)] for s in range(S)],
                    "lead": [[rng.choice(["000000", "240000", "1200000"]) for d in range(D)] for s in range(S)]}
    to, tf = mk(False), mk(True)
    obs = np.array([[[rng.randint(-900, 900) / 16 for _ in range(n)] for _ in range(D)] for _ in range(S)])
    fc = obs + np.array([[[rng.randint(-99, 99) / 16 for _ in range(n)] for _ in range(D)] for _ in range(S)])
    lat, lon = [rng.randint(-720, 720) / 8 for _ in range(n)], [rng.randint(0, 2880) / 8 for _ in range(n)]
    model, desc, fv, fu, fl, ov, ou, ol, mask, lev = w(12), w(14), w(11), w(12), w(13), w(9), w(14), w(10), w(12), w(5)
    _, err = quiet(lambda: write_mpr_file(obs, fc, lat, lon, to, tf, model, desc, fv, fu, fl, ov, ou, ol, mask, lev, os.path.join(base, "out")))
    names, want = [], []
    head = "VERSION MODEL DESC FCST_LEAD FCST_VALID_BEG FCST_VALID_END OBS_LEAD OBS_VALID_BEG OBS_VALID_END FCST_VAR FCST_UNITS FCST_LEV OBS_VAR OBS_UNITS OBS_LEV OBTYPE VX_MASK INTERP_MTHD INTERP_PNTS FCST_THRESH OBS_THRESH COV_THRESH ALPHA LINE_TYPE"
    for s in range(S):
        for d in range(D):
            v = tf["valid"][s][d]
            if not v:
                continue
            names.append("out_%sL_%s_%sV.stat" % (tf["lead"][s][d], v[:8], v[9:]))
            want.append((names[-1], head.split()))
            for k in range(n):
                o = to["valid"][s][d]
                want.append((names[-1], ["V9.1", model, desc, tf["lead"][s][d], v, v, to["lead"][s][d], o, o, fv, fu, fl, ov, ou, ol, "ADPUPA", mask, "NEAREST", "1", "NA", "NA", "NA", "NA", "MPR",
                                         str(n), str(k + 1), "NA", num(lat[k]), num(lon[k]), lev, "NA", num(fc[s, d, k]), num(obs[s, d, k]), "NA", "NA", "NA", "NA"]))
    rows = []
    found = sorted(os.listdir(base))
    for f in found:
        for line in open(os.path.join(base, f)):
            rows.append([f] + line.split())
    shutil.rmtree(base)
    order = {f: k for k, f in enumerate(found)}
    want = [[f] + r for f, r in sorted(want, key=lambda x: order.get(x[0], -1))]
    return {"op": "pairs", "err": err or "", "files": found, "names": sorted(set(names)), "rows": rows, "want": want, "numeric": [29, 30, 33, 34]}


def run(ctx):
    rng = ctx.rng
    cases = ctx.model("MC_Regimes", consts={"L": ctx.scale(5, 6)})
    fr = [c for c in cases if c["op"] == "freq"]
    events = [freq(ctx, [c["lab"], c["lab"][::-1]], c["w"], 3) for c in fr]
    events += matches(ctx, [c for c in cases if c["op"] == "reorder"] + rng.sample([c for c in cases if c["op"] == "match"], ctx.scale(600, 4096)))
    for _ in range(ctx.scale(60, 400)):
        D = rng.choice([7, 12, 20])
        events.append(freq(ctx, [[rng.randint(1, 6) for _ in range(D)] for _ in range(rng.choice([1, 2, 4]))], rng.choice([1, 2, 7, D]), rng.choice([6, 6, 4])))
        events += anomaly(ctx)
        events.append(eof(ctx))
        events.append(classes(ctx))
        events.append(table(ctx))
        events.append(read(ctx))
        events.append(pairs(ctx))
    for _ in range(ctx.scale(25, 150)):
        events.append(elbow(ctx))
    ctx.judge("TV_Regimes", events, key=lambda e, c: e["op"] + ":" + c.split(" ")[0])
