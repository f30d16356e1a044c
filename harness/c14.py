"""C14: the aggregation run writes one correct line per requested point."""
import pandas as pd
from vlib import num
from aggrun import params, run_agg, cell

CTC = ["CSI", "GSS", "BASER", "ACC", "FBIAS", "PODY", "HSS", "CTC_TOTAL", "CTC_FY_OY"]
SL = ["FBAR", "OBAR", "ME", "MSE", "RMSE", "MAE", "SL1L2_TOTAL", "MBIAS", "FE", "SI"]
CTC2 = ["fy_oy", "fy_on", "fn_oy", "fn_on"]
SUM = {"nbr_ctc": "nbrctc", "nbr_cnt": "nbrcnt"}
FAM = {"ctc": (CTC, ["fy_oy", "fy_on", "fn_oy", "fn_on"]), "sl1l2": (SL, ["fbar", "obar", "fobar", "ffbar", "oobar", "mae"])}


def numbers(fam, rng):
    if fam == "ctc":
        d = {c: rng.choice([0, 1, 2, 5, 17, 40]) for c in FAM["ctc"][1]}
        if rng.random() < .15:
            d = {c: 0 if c != "fn_on" else x for c, x in d.items()}
        d["total"] = sum(d.values())
    elif fam == "sl1l2":
        d = {c: rng.randint(-40, 40) / 8 for c in ("fbar", "obar", "fobar")}
        d.update(ffbar=d["fbar"] ** 2 + rng.randint(0, 64) / 8, oobar=d["obar"] ** 2 + rng.randint(8, 64) / 8, mae=rng.randint(0, 40) / 8)
        d["fobar"] = d["fbar"] * d["obar"]
        d["total"] = rng.choice([1, 2, 4, 8])
        if rng.random() < .15:
            d.update(obar=0, fobar=0)
    else:
        import sumlib
        d = {c: int(x) if c in ("total", *CTC2, "n_ge_obs", "n_lt_obs") else float(x) for c, x in sumlib.numbers(SUM.get(fam, fam), rng).items()}
    return d


def axis_params(axes, k):
    if k >= len(axes):
        return {f"series_val_{k + 1}": {}, f"list_stat_{k + 1}": [], f"fcst_var_val_{k + 1}": {}, f"derived_series_{k + 1}": []}
    ax = axes[k]
    ser = ax["dims"][:ax["series"]]
    return {f"series_val_{k + 1}": {d["field"]: [v["label"] for v in d["vals"]] for d in ser}, f"list_stat_{k + 1}": ax["stats"],
            f"fcst_var_val_{k + 1}": {ax["var"]: ax["stats"]} if ax["var"] else {}, f"derived_series_{k + 1}": ax.get("derived", [])}


def config(fam, axes, **kw):
    p = params(line_type=fam, **kw)
    for k in (0, 1):
        p.update(axis_params(axes, k))
    indy = axes[0]["dims"][axes[0]["series"]:]
    p["indy_var"] = indy[0]["field"] if indy else ""
    p["indy_vals"] = [v["label"] for v in indy[0]["vals"]] if indy else []
    return p


def frame(rows, rng=None):
    rows = list(rows)
    if rng:
        rng.shuffle(rows)
    return pd.DataFrame([{**r["lab"], **r["num"], "stat_value": "NA"} for r in rows])


def lines_of(out, axes):
    labels = [d["field"] for d in axes[0]["dims"]] + ["stat_name"]
    if len(axes) > 1:
        labels += [d["field"] for d in axes[1]["dims"]]
    res = []
    for _, r in out.iterrows():
        lab = {c: (r[c] if c in out.columns else "(no column)") for c in labels}
        lab["fcst_var"] = cell_text(r["fcst_var"])
        n = r["nstats"]
        res.append({"lab": lab, "value": cell(r["stat_value"]), "low": cell(r["stat_btcl"]), "high": cell(r["stat_btcu"]),
                    "n": n[:-len(".0000000")] if n.endswith(".0000000") else n})
    return res


def cell_text(s):
    return "none" if s in ("NA", "", "None") else s


def event(ctx, fam, axes, rows, shuffle=True, iterations=1, times=1, **kw):
    p = config(fam, axes, num_iterations=iterations, **kw)
    out, err = run_agg(ctx.tmp, frame(rows, ctx.rng if shuffle else None), p, times=times)
    lab = sorted({s for ax in axes for s in ax["stats"]})
    return {"op": "run", "fam": fam, "axes": axes, "lower": {s: s.lower() for s in lab}, "iterations": iterations, "times": times,
            "rows": [{"lab": {k: str(x) for k, x in r["lab"].items()}, "num": {k: num(x) for k, x in r["num"].items()}} for r in rows],
            "lines": [] if err else lines_of(out, axes), "err": err or ""}


def mkrows(rng, fam, cells, stats, times, extra=None):
    """one row per cell (dict of labels), valid time and statistic; the statistics of one case share its numbers"""
    rows = []
    for c in cells:
        for t in times:
            d = numbers(fam, rng)
            for s in stats:
                rows.append({"lab": {**c, "fcst_valid_beg": t, "stat_name": s}, "num": d})
    return rows


def val(x):
    return {"label": x, "members": [x]}


def grp(xs, sep=":"):
    return {"label": sep.join(xs), "members": list(xs)}


BASE = {"model": ["A", "B", "GFS v2"], "vx_mask": ["X", "Y"], "fcst_lead": ["10000", "120000", "240000"], "interp_pnts": ["1", "9", "25"],
        "fcst_thresh": [">0.5", ">=10", "<=0"], "cov_thresh": ["0.5", "1.25", "2.0"],
        "fcst_init_beg": ["2020-01-01 00:00:00", "2020-01-01 12:00:00"]}


def values(rng, f, pool):
    xs = pool[f][:]
    rng.shuffle(xs)
    k = rng.random()
    if k < .5:
        vs = [val(x) for x in xs[:rng.randint(1, len(xs))]]
    elif k < .8:
        vs = [grp(xs[:2])] + [val(x) for x in xs[2:]]
    else:
        vs = [val(xs[0]), grp(xs[-2:])]
    if rng.random() < .15 and f in ("model", "vx_mask"):
        vs.append(val("NONE"))
    return vs


def scenario(ctx):
    rng = ctx.rng
    import sumlib
    fam = rng.choice(["ctc", "sl1l2"]) if rng.random() < .6 else rng.choice(["sal1l2", "grad", "vl1l2", "val1l2", "ecnt", "rps", "nbr_ctc", "nbr_cnt"])
    POOL = dict(BASE)
    names = rng.sample([f for f in POOL], 4)
    ns = rng.choice([0, 1, 1, 2, 2])
    indy = [{"field": names[3], "vals": values(rng, names[3], POOL)}] if rng.random() < .9 or ns == 0 else []
    allstats = FAM[fam][0] if fam in FAM else [s.upper() for s in sumlib.STATS[SUM.get(fam, fam)]]
    if rng.random() < .2 and len(allstats) > 2:                   # labels spelled like statistics
        POOL["model"] = allstats = rng.sample(allstats, 3)

    def axis(sf):
        return {"dims": [{"field": f, "vals": values(rng, f, POOL)} for f in sf] + indy, "series": len(sf), "stats": rng.sample(allstats, rng.choice([1, 2, min(3, len(allstats))])),
                "var": rng.choice(["TMP", "TMP", "HGT"])}
    axes = [axis(names[:ns])]
    if ns and rng.random() < .3:
        axes.append(axis(names[:ns]))
        axes[1]["stats"] = axes[1]["stats"]
    used = names[:ns] + [d["field"] for d in indy]
    cells = []
    for _ in range(rng.choice([1, 4, 12, 25])):
        c = {f: rng.choice(POOL[f]) for f in set(names) | {"fcst_lead"}}
        c["fcst_var"] = rng.choice(["TMP", "TMP", "HGT"])
        cells.append(c)
    stats = sorted({s for a in axes for s in a["stats"]})
    times = [f"2020-01-{d:02d} 00:00:00" for d in rng.sample(range(1, 28), rng.choice([1, 2, 3]))]
    rows = mkrows(rng, fam, cells, stats, times)
    if rng.random() < .25:
        rows = rng.sample(rows, max(1, len(rows) * 2 // 3))
    # a label column of whole numbers is read as numbers
    return fam, axes, rows


def run(ctx):
    rng = ctx.rng
    events = []
    cases = ctx.model("MC_Agg")
    if not ctx.thorough:
        cases = rng.sample(cases, 320)
    for c in cases:
        cells = [{"model": m, "fcst_lead": l, "vx_mask": k, "fcst_var": v} for m, l in c["present"] for k in "XY" for v in ("TMP", "HGT")]
        if not cells:
            cells = [{"model": "Q", "fcst_lead": "480000", "vx_mask": "X", "fcst_var": "TMP"}]
        rows = mkrows(rng, "ctc", cells, c["ax"]["stats"], ["2020-01-01 00:00:00", "2020-01-02 00:00:00"])
        events.append(event(ctx, "ctc", [c["ax"]], rows))
    for _ in range(ctx.scale(250, 2500)):
        events.append(event(ctx, *scenario(ctx), times=rng.choice([1, 1, 1, 2, 3])))
    ctx.judge("TV_Agg", events, key=lambda e, c: e["fam"] + ":" + c.split(" ")[0])
