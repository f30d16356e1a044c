"""Runs the aggregation (metcalcpy.agg_stat.AggStat) on generated tables through its files."""
import os, contextlib, copy
import pandas as pd
from vlib import call, num


def params(**kw):
    p = {"agg_stat_input": None, "agg_stat_output": None, "random_seed": 1, "event_equal": "False", "line_type": None,
         "series_val_1": {}, "series_val_2": {}, "indy_vals": [], "indy_var": "fcst_lead", "list_stat_1": [], "list_stat_2": [],
         "fcst_var_val_1": {}, "fcst_var_val_2": {}, "derived_series_1": [], "derived_series_2": [], "num_iterations": 1,
         "num_threads": -1, "method": "perc", "alpha": 0.05, "circular_block_bootstrap": "True", "fixed_vars_vals_input": {}}
    p.update(kw)
    return p


def run_agg(tmp, df, p, limit=120, times=1):
    """(output frame as text cells, error); runs after the first append"""
    from metcalcpy.agg_stat import AggStat
    fi, fo = os.path.join(tmp, "in.data"), os.path.join(tmp, "out.data")
    if os.path.exists(fo):
        os.unlink(fo)
    df.to_csv(fi, sep="\t", index=False, na_rep="NA")
    p = dict(p, agg_stat_input=fi, agg_stat_output=fo)

    def go():
        for k in range(times):
            AggStat(dict(copy.deepcopy(p), append_to_file="True") if k else copy.deepcopy(p)).calculate_stats_and_ci()
    _, err = call(go, limit=limit)
    if err:
        return None, err
    try:
        return pd.read_csv(fo, sep="\t", dtype=str, keep_default_na=False), None
    except Exception as e:
        return None, "exc:" + type(e).__name__


def cell(s):
    """a cell of the output file as an observed value"""
    if s in ("NA", "", "None"):
        return "none"
    try:
        float(s)
    except ValueError:
        return "other:" + s
    return "nan" if s.lower() == "nan" else "inf" if "inf" in s.lower() else s


def run_models(ctx, line_type, tables, stats, colmap=None, prefix="", chunk=12, extra=None):
    """Each table (dict column -> list) becomes one series value of a run; yields the observed values per table:
    list of {stat: value}.  Every line is written once per statistic, as in the database exports."""
    obs = []
    for c0 in range(0, len(tables), chunk):
        part = tables[c0:c0 + chunk]
        rows = []
        for k, t in enumerate(part):
            n = len(next(iter(t.values())))
            for i in range(n):
                base = {"model": f"M{k}", "fcst_valid_beg": f"2020-01-{1 + i // 24:02d} {i % 24:02d}:00:00", "fcst_lead": 120000,
                        "fcst_var": "TMP", "stat_value": "NA"}
                base.update({a: t[a][i] for a in t})
                for s in stats:
                    rows.append(dict(base, stat_name=prefix + s))
        ctx.rng.shuffle(rows)
        df = pd.DataFrame(rows)
        p = params(line_type=line_type, series_val_1={"model": [f"M{k}" for k in range(len(part))]},
                   indy_vals=["120000"], list_stat_1=[prefix + s for s in stats], fcst_var_val_1={"TMP": [prefix + s for s in stats]},
                   **(extra or {}))
        out, err = run_agg(ctx.tmp, df, p)
        for k in range(len(part)):
            o = {}
            for s in stats:
                if err:
                    o[s] = err
                    continue
                hit = out[(out["model"] == f"M{k}") & (out["stat_name"] == prefix + s)]
                o[s] = cell(hit["stat_value"].iloc[0]) if len(hit) == 1 else f"lines:{len(hit)}"
            obs.append(o)
    return obs
