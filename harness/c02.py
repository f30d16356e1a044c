"""C02: event equalization of a run, over forecast variables, statistics and both axes."""
import os
import pandas as pd
from vlib import call
from eqlib import rows_of, conf, spec
from c01 import table, POOL, dims
from c14 import val

VARS = ["APCP_03", "TMP", "TMP2"]
STATS = ["ME", "RMSE", "ME2"]


def scenario(rng, nseries=None):
    fs = rng.sample(["model", "interp_pnts", "lev", "thr"], rng.choice([1, 2, 2]) if nseries is None else nseries)
    axes = []
    two = rng.random() < .5
    for k in range(2 if two else 1):
        mine = fs if rng.random() < .7 or nseries else rng.sample(["model", "interp_pnts", "lev", "thr"], 1)
        vs = rng.sample(VARS, rng.choice([1, 1, 2]))
        axes.append({"series": dims(rng, mine, False), "vars": [{"var": v, "stats": rng.sample(STATS, rng.choice([1, 1, 2]))} for v in vs]})
    rest = [f for f in ("model", "interp_pnts", "lev", "thr") if not any(f == d["field"] for ax in axes for d in ax["series"])]
    fixed = dims(rng, rng.sample(rest, min(len(rest), rng.choice([0, 0, 1, 1, 2]))), False)
    for d in fixed:
        for v in d["vals"]:
            v["label"] = v["label"]
    return axes, fixed


def data(rng, axes, fixed, valid, complete):
    used = {f: [x for x in POOL[f] if x is not None] for f in POOL}
    used["fcst_var"] = VARS
    used["stat_name"] = STATS
    df = table(rng, used, rng.choice([20, 60, 150, 300]), valid)
    if not complete:
        return df
    # a dense table: every combination the run asks for, with a few rows lost
    from itertools import product
    rows = []
    ds = {}
    for ax in axes:
        for d in ax["series"] + fixed:
            ds.setdefault(d["field"], set()).update(m for v in d["vals"] for m in v["members"])
    vs = sorted({(v["var"], s) for ax in axes for v in ax["vars"] for s in v["stats"]})
    cases = [("2020-01-01 00:00:00", 0), ("2020-01-01 12:00:00", 120000), ("2020-01-02 00:00:00", 0)][:rng.choice([1, 2, 3])]
    for combo in product(*[sorted(ds[f]) for f in ds]):
        for (var, st), (t, lead), x in product(vs, cases, rng.choice([[5], [5, 6]])):
            if rng.random() < rng.choice([0, .02, .1]):
                continue
            r = dict(zip(ds, combo))
            r.update(fcst_var=var, stat_name=st, fcst_lead=lead, x=x, val=rng.choice([None, 1.5]))
            r[valid] = t
            rows.append(r)
    rng.shuffle(rows)
    rows = rows[:400]
    if not rows:
        return df
    df = pd.DataFrame(rows)
    df["id"] = [f"d{k}" for k in range(len(df))]
    for f in ("interp_pnts", "thr"):
        if f in df:
            df[f] = df[f].astype(float if f == "thr" else int)
    return df


def base(df, axes, fixed, indy, line="sl1l2"):
    from eqlib import members
    p = {"indy_var": indy, "line_type": line,
         "fixed_vars_vals_input": {d["field"]: {d["field"] + "_0": members(d["vals"])} for d in fixed}}
    for k in (0, 1):
        ax = axes[k] if k < len(axes) else None
        p[f"series_val_{k + 1}"] = conf(ax["series"]) if ax else {}
        p[f"fcst_var_val_{k + 1}"] = {v["var"]: list(v["stats"]) for v in ax["vars"]} if ax else {}
    return p


def event(op, df, axes, fixed, indy, out, err):
    return {"op": op, "rows": rows_of(df), "axes": [{"series": spec(a["series"]), "vars": a["vars"]} for a in axes], "fixed": spec(fixed), "indy": indy,
            "err": err or "", "out": [] if err else rows_of(out)}


def drive(ctx, df, p):
    """the stand-alone driver, through files"""
    from metcalcpy.agg_stat_event_equalize import AggStatEventEqualize
    src, dst = os.path.join(ctx.tmp, "in.txt"), os.path.join(ctx.tmp, "out.txt")
    df.to_csv(src, sep="\t", index=None, na_rep="NA")
    if os.path.exists(dst):
        os.remove(dst)
    p = dict(p, agg_stat_input=src, agg_stat_output=dst)
    _, err = call(lambda: AggStatEventEqualize(p).calculate_values())
    if err:
        return None, err
    try:
        return pd.read_csv(dst, sep="\t"), None
    except pd.errors.EmptyDataError:
        return pd.DataFrame(), None


def run(ctx):
    from metcalcpy.util.utils import perform_event_equalization
    rng = ctx.rng
    events = []
    cases = ctx.model("MC_EqRun", workers=4)
    rng.shuffle(cases)
    for c in cases[:ctx.scale(700, len(cases))]:
        if not c["rows"]:
            continue
        rng.shuffle(c["rows"])
        df = pd.DataFrame(c["rows"])
        for col in ("fcst_lead", "x"):
            df[col] = df[col].astype(int)
        mk = lambda ds: [{"field": d["field"], "vals": [val(m) for m in d["members"]]} for d in ds]
        axes = [{"series": mk(a["series"]), "vars": a["vars"]} for a in c["axes"]]
        out, err = call(perform_event_equalization, base(df, axes, mk(c["fixed"]), "x"), df.copy())
        events.append(event("run", df, axes, mk(c["fixed"]), "x", out, err))
    for _ in range(ctx.scale(260, 3000)):
        axes, fixed = scenario(rng)
        valid = rng.choice(["fcst_valid_beg", "fcst_valid"])
        df = data(rng, axes, fixed, valid, rng.random() < .75)
        indy = rng.choice(["x", "x", "fcst_lead", valid])
        p = base(df, axes, fixed, indy)
        if rng.random() < .3:
            p["fixed_vars_vals_input"] = {k: list(v.values())[0] for k, v in p["fixed_vars_vals_input"].items()}
        out, err = call(perform_event_equalization, p, df.copy())
        events.append(event("run", df, axes, fixed, indy, out, err))
    for _ in range(ctx.scale(120, 1500)):
        axes, fixed = scenario(rng, 1)
        df = data(rng, axes, fixed, "fcst_valid", rng.random() < .75)
        indy = rng.choice(["x", "fcst_lead"])
        out, err = drive(ctx, df, base(df, axes, fixed, indy))
        events.append(event("driver", df, axes, fixed, indy, out, err))
    ctx.judge("TV_Equalize", events, key=lambda e, c: e["op"] + ":" + c.split(" ")[0])
