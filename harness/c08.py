"""C08: probability-table scores, directly, through aggregation runs and through reliability runs."""
import os
from decimal import Decimal
import numpy as np
import pandas as pd
from vlib import callnum, num
from aggrun import params, run_agg, cell

SC = ["pstd_brier", "pstd_bss_smpl", "pstd_baser", "pstd_reliability", "pstd_resolution", "pstd_uncertainty", "pstd_roc_auc"]


def base(t):
    y = sum(map(sum, t["oy"]))
    n = y + sum(map(sum, t["on"]))
    return y / n if n else float("nan")


def direct(ag, t, rng):
    cols, arr = [], []
    B, L = len(t["thr"]), len(t["oy"])
    for b in range(B):
        sfx = f".{b}" if b else ""
        cols += ["thresh_i" + sfx, "oy_i" + sfx, "on_i" + sfx]
        arr += [[float(t["thr"][b])] * L, [float(r[b]) for r in t["oy"]], [float(r[b]) for r in t["on"]]]
    cols += ["total", "o_bar"]
    arr += [[float(x) for x in t["total"]], [base(t)] * L]
    arr = np.array(arr).T
    names = np.array(cols, dtype=object)
    return {s: callnum(getattr(ag, "calculate_" + s), arr.copy(), names) for s in SC + ["pstd_calibration", "pstd_ni", "pct_total"]}


def rand_tab(rng, B=None, L=None):
    B = B or rng.choice([1, 2, 3, 5, 9])
    L = L or rng.choice([1, 2, 3])
    thr = [str(Decimal(k) / 1000) for k in sorted(rng.sample(range(0, 1001, 25), B))]
    if rng.random() < .3:
        rng.shuffle(thr)
    pool = rng.choice([[0, 1, 2, 7], [0, 0, 0, 3], [5, 40, 2683, 176, 13]])
    g = lambda: [[rng.choice(pool) for _ in range(B)] for _ in range(L)]
    oy, on = g(), g()
    k = rng.random()
    if k < .1:
        oy = [[0] * B for _ in range(L)]
    elif k < .2:
        on = [[0] * B for _ in range(L)]
    elif k < .25 and B > 1:
        for r in oy + on:
            r[rng.randrange(B) if L == 1 else 0] = 0
    return {"thr": thr, "oy": oy, "on": on, "total": [sum(a) + sum(b) for a, b in zip(oy, on)]}


def run_roc(ctx, B, grid):
    """grid[m][k]: the table of model m at lead k, all with B bins, thresholds may differ"""
    rng = ctx.rng
    rows = []
    other = rng.random() < .5       # lines of another variable, to be ignored
    for m, per in enumerate(grid):
        for k, t in enumerate(per):
            for l in range(len(t["oy"])):
                for s in SC + ["pct_total"]:
                    r = [f"M{m}", f"2020-01-{l + 1:02d} 00:00:00", (k + 1) * 10000, "TMP", s.upper(), "NA", t["total"][l], B]
                    for b in range(B):
                        r += [t["thr"][b], t["oy"][l][b], t["on"][l][b]]
                    rows.append(r)
                    if other:
                        rows.append(r[:3] + ["OTHER"] + r[4:8] + [rng.randint(0, 9) if isinstance(x, int) else x for x in r[8:]])
    rng.shuffle(rows)
    head = ["model", "fcst_valid_beg", "fcst_lead", "fcst_var", "stat_name", "stat_value", "total", "n_thresh"]
    for b in range(B):
        head += [f"FORMAT((ldt{b}.thresh_i + ldt{b + 1}.thresh_i)/2, 3)", "oy_i", "on_i"]
    df = pd.DataFrame(rows)
    df.columns = head
    st = [s.upper() for s in SC + ["pct_total"]]
    p = params(line_type="pct", series_val_1={"model": [f"M{m}" for m in range(len(grid))]}, indy_var="fcst_lead",
               indy_vals=[str((k + 1) * 10000) for k in range(len(grid[0]))], list_stat_1=st, fcst_var_val_1={"TMP": st})
    out, err = run_agg(ctx.tmp, df, p)
    evs = []
    for m, per in enumerate(grid):
        for k, t in enumerate(per):
            o = {}
            for s in SC + ["pct_total"]:
                if err:
                    o[s] = err
                    continue
                hit = out[(out["model"] == f"M{m}") & (out["fcst_lead"] == str((k + 1) * 10000)) & (out["stat_name"] == s.upper())]
                o[s] = cell(hit["stat_value"].iloc[0]) if len(hit) == 1 else f"lines:{len(hit)}"
            evs.append(ev(t, o, "run"))
    return evs


def run_reliability(ctx, models):
    """reliability form: one row per bin, the bin is the independent variable"""
    rng = ctx.rng
    rows = []
    ST = ["PSTD_CALIBRATION", "PSTD_NI"]
    for m, t in enumerate(models):
        for l in range(len(t["oy"])):
            for b in range(len(t["thr"])):
                for s in ST:
                    rows.append({"model": f"M{m}", "fcst_valid_beg": f"2020-01-{l + 1:02d} 00:00:00", "fcst_lead": 10000, "fcst_var": "TMP",
                                 "stat_name": s, "stat_value": "NA", "total": t["total"][l], "i_value": b + 1, "thresh_i": float(t["thr"][b]),
                                 "oy_i": t["oy"][l][b], "on_i": t["on"][l][b]})
    rng.shuffle(rows)
    p = params(line_type="pct", series_val_1={"model": [f"M{m}" for m in range(len(models))]}, indy_var="thresh_i",
               indy_vals=["0"], list_stat_1=ST, fcst_var_val_1={"TMP": ST})
    out, err = run_agg(ctx.tmp, pd.DataFrame(rows), p)
    evs = []
    for m, t in enumerate(models):
        for b in range(len(t["thr"])):
            one = {"thr": [t["thr"][b]], "oy": [[r[b]] for r in t["oy"]], "on": [[r[b]] for r in t["on"]], "total": t["total"]}
            o = {}
            for s in ST:
                if err:
                    o[s.lower()] = err
                    continue
                hit = out[(out["model"] == f"M{m}") & (out["thresh_i"].astype(float) == float(t["thr"][b])) & (out["stat_name"] == s)]
                o[s.lower()] = cell(hit["stat_value"].iloc[0]) if len(hit) == 1 else f"lines:{len(hit)}"
            evs.append(ev(one, o, "reliability"))
    return evs


def ev(t, out, mode):
    return {"op": "pct", "mode": mode, "tab": {"thr": [num(x) for x in t["thr"]], "oy": t["oy"], "on": t["on"], "total": t["total"]}, "out": out}


def run(ctx):
    import metcalcpy.agg_stat as ag
    rng = ctx.rng
    cases = ctx.model("MC_Pct")
    events = [ev(t, direct(ag, t, rng), "direct") for t in (cases if ctx.thorough else rng.sample(cases, 300))]
    for _ in range(ctx.scale(150, 1500)):
        t = rand_tab(rng)
        events.append(ev(t, direct(ag, t, rng), "direct"))
    for _ in range(ctx.scale(8, 60)):
        B = rng.choice([1, 2, 4, 9])
        events += run_roc(ctx, B, [[rand_tab(rng, B) for _ in range(2)] for _ in range(3)])
    for _ in range(ctx.scale(2, 10)):
        events += run_roc(ctx, 3, [[c] for c in rng.sample(cases, 6)])
    for _ in range(ctx.scale(4, 40)):
        B = rng.choice([2, 4])
        ts = [rand_tab(rng, B) for _ in range(3)]
        for t in ts[1:]:
            t["thr"] = ts[0]["thr"]
        events += run_reliability(ctx, ts)
    ctx.judge("TV_Pct", events, key=lambda e, c: f"{e['mode']}:{c.split(' ')[0]}")
