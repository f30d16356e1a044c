"""C10: economic value curves, from the functions and through the file driver."""
import os
import numpy as np
import pandas as pd
from vlib import call, num
from aggrun import cell

STEPS = [0.05, 0.1, 0.2, 0.25, 0.5, 0.02, 0.3]


def grid_of(step):
    from fractions import Fraction
    s = Fraction(str(step))
    return [num(s * k) for k in range(1, 200) if s * k < 1]


def real(x):
    return float("nan") if x == "none" else float(x)


def gaps(rng, xs):
    """the counts as text, some of them missing"""
    return [("none" if rng.random() < .3 else str(x)) for x in xs] if rng.random() < .2 else [str(x) for x in xs]


def curve(r, e, base):
    e = dict(base, err=e or "none", none=r is None, cl=[], V=[], vmax="none", H="none", F="none", s="none")
    if r is not None:
        e.update(cl=[num(x) for x in r["cl"]], V=[num(x) for x in r["V"]], vmax=num(r["vmax"]), H=num(r["H"]), F=num(r["F"]), s=num(r["s"]))
    return e


def ctc_arr(rows, rng):
    cols = ["fy_oy", "fy_on", "fn_oy", "fn_on"]
    order = rng.sample(range(4), 4)
    return np.array([[real(r[j]) for j in order] for r in rows]), np.array([cols[j] for j in order], dtype=object)


def pct_arr(rows, rng):
    cols = ["thr", "oy", "on"]
    names = {"thr": "thresh_i", "oy": "oy_i", "on": "on_i"}
    rng.shuffle(cols)
    return np.array([[real(r[c]) for c in cols] for r in rows]), np.array([names[c] for c in cols], dtype=object)


def run_driver(ctx, lt, models, rows, step, base, boot, ee, method="perc", naming=None, append=False, **kw):
    naming = naming or {m: m for m in "ABCZ"}
    na = lambda x: "NA" if x == "none" else x
    from metcalcpy.agg_eclv import AggEclv
    fi, fo = os.path.join(ctx.tmp, "ei.data"), os.path.join(ctx.tmp, "eo.data")
    if os.path.exists(fo):
        os.unlink(fo)
    recs = []
    for r in rows:
        d = {"model": naming[r["m"]], "fcst_valid_beg": r["case"], "fcst_lead": 120000, "fcst_var": "X", "stat_name": "ECLV", "stat_value": "NA"}
        if lt == "ctc":
            d.update(total=sum(int(x) for x in r["c"] if x != "none"), fy_oy=na(r["c"][0]), fy_on=na(r["c"][1]), fn_oy=na(r["c"][2]), fn_on=na(r["c"][3]))
        else:
            d.update(thresh_i=float(r["thr"]), oy_i=na(r["oy"]), on_i=na(r["on"]))
        recs.append(d)
    pd.DataFrame(recs).to_csv(fi, sep="\t", index=False)
    p = {"random_seed": 1, "indy_var": "", "method": method, "num_iterations": 20 if boot else 1, "event_equal": str(ee), "agg_stat_input": fi,
         "agg_stat_output": fo, "fixed_vars_vals_input": {}, "series_val_1": {"model": [naming[m] for m in models]} if models else {}, "alpha": 0.05, "line_type": lt,
         "num_threads": 1, "indy_vals": [], "circular_block_bootstrap": True, "equalize_by_indep": "True", "cl_step": step}
    if base:
        p["add_base_rate"] = 1
    p.update(kw)

    def go():
        AggEclv(dict(p)).calculate_stats_and_ci()
        if append:
            AggEclv(dict(p, append_to_file="True")).calculate_stats_and_ci()
    _, err = call(go, limit=60)
    out = []
    back = {v: k for k, v in naming.items()}
    if not err:
        try:
            o = pd.read_csv(fo, sep="\t", dtype=str, keep_default_na=False)
            for _, r in o.iterrows():
                out.append({"m": back.get(r["model"], r["model"]) if models else "-", "thr": r["thresh_i"], "x": cell(r["x_pnt_i"]), "y": cell(r["y_pnt_i"]),
                            "lo": cell(r["stat_btcl"]), "hi": cell(r["stat_btcu"]), "n": int(float(r["nstats"]))})
        except pd.errors.EmptyDataError:
            pass
        except Exception as ex:
            err = "exc:" + type(ex).__name__
    return {"op": "run", "lt": lt, "models": models, "rows": rows, "grid": grid_of(step), "base": base, "boot": boot, "ee": ee, "err": err or "none",
            "out": out, "method": method, "append": append}


def run(ctx):
    from metcalcpy.util import eclv_statistics as es, ctc_statistics as cs
    rng = ctx.rng
    ev = []
    cases = [[c["a"], c["b"], c["c"], c["d"]] for c in ctx.model("MC_Eclv", consts={"Top": ctx.scale(3, 4)})]
    cnt = lambda: rng.choice([0, 1, 2, 5, 30, 497, 4189])
    for n, c in enumerate(cases + [[cnt() for _ in range(4)] for _ in range(ctx.scale(150, 1500))]):
        step, base = rng.choice(STEPS), rng.random() < .5
        grid = np.arange(step, 1, step)
        g = grid_of(step)
        if rng.random() < .3:
            g = rng.sample(["0.1", "0.9", "0.35", "0.5", "0.02", "0.75"], 4)
            grid = [float(x) for x in g]
        b = {"op": "curve", "rows": [[str(x) for x in c]], "lt": "ctc", "thr": "0", "grid": g, "base": base}
        if n % 2:
            r, e = call(cs.calculate_economic_value, np.array([float(x) for x in c]), grid, base)
        else:
            k = [rng.randint(0, x) for x in c]
            b["rows"] = [gaps(rng, k), gaps(rng, [x - y for x, y in zip(c, k)])]
            arr, names = ctc_arr(b["rows"], rng)
            r, e = call(es.calculate_eclv, arr, names, None, "ctc", grid, int(base))
        ev.append(curve(r, e, b))
    for _ in range(ctx.scale(150, 1500)):
        step, base = rng.choice(STEPS), rng.random() < .5
        rows = [{"thr": rng.choice(["0.05", "0.15", "0.25", "0.5", "0.9"]), **dict(zip(("oy", "on"), gaps(rng, [cnt(), cnt()])))} for _ in range(rng.choice([1, 3, 6]))]
        if rng.random() < .1:
            for r in rows:
                r["oy"] = "0"
        thr = rng.choice(["0.05", "0.25", "0.5", "0.9", "0", "0.3"])
        arr, names = pct_arr(rows, rng)
        r, e = call(es.calculate_eclv, arr, names, float(thr), "pct", np.arange(step, 1, step), int(base))
        ev.append(curve(r, e, {"op": "curve", "rows": rows, "lt": "pct", "thr": thr, "grid": grid_of(step), "base": base}))
    for k in range(ctx.scale(40, 300)):
        lt = rng.choice(["ctc", "pct"])
        models = rng.choice([[], ["A"], ["A", "B"], ["B", "C", "A"]])
        pool = models or ["A"]
        if len(models) > 1 and rng.random() < .15:
            pool = models[:-1]                      # a series without rows
        rows = []
        ts = rng.choice([["0.1", "0.5", "0.9"], ["0.25"], ["0.9", "0.05"]])
        for i in range(rng.choice([1, 3, 5])):
            for m in pool + (["Z"] if models else []):
                if rng.random() < .85:
                    case = f"2020-01-{1 + i:02d} 00:00:00"
                    if lt == "ctc":
                        rows.append({"m": m, "case": case, "c": gaps(rng, [rng.choice([0, 3, 8, 20]) for _ in range(4)])})
                    else:
                        rows += [{"m": m, "case": case, "thr": t, **dict(zip(("oy", "on"), gaps(rng, [rng.choice([0, 2, 9]), rng.choice([0, 4, 11])])))} for t in ts]
        if not rows or not any(r["m"] in pool for r in rows):
            continue
        rng.shuffle(rows)
        ev.append(run_driver(ctx, lt, models, rows, rng.choice(STEPS), rng.random() < .4, rng.random() < .3, len(models) > 0 and rng.random() < .3,
                             rng.choice(["perc", "perc", "pivotal"]),
                             rng.choice([None, None, {"A": "1.5", "B": "0.25", "C": "12.5", "Z": "1"}, {"A": "2", "B": "10", "C": "-1", "Z": "3"}]), rng.random() < .2))
    ctx.judge("TV_Eclv", ev, key=lambda e, c: f"{e['op']}:{e['lt']}:{c.split(' ')[0]}")
