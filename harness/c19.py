"""C19: the summary run."""
import itertools
import os
import pandas as pd
from vlib import call, num
from eqlib import cell
from sumlib import COLS, STATS, LABS, mkrows, frame, enc
from c20 import group

# the columns a summary line no longer needs
CONSUMED = {"ctc": "total fy_oy fy_on fn_oy fn_on", "nbrctc": "total fy_oy fy_on fn_oy fn_on", "sl1l2": "total fbar obar fobar ffbar oobar",
            "sal1l2": "total fabar oabar foabar ffabar ooabar", "grad": "total fgbar ogbar mgbar egbar",
            "vl1l2": "total ufbar vfbar uobar vobar uvfobar uvffbar uvoobar f_speed_bar o_speed_bar",
            "val1l2": "total ufabar vfabar uoabar voabar uvfoabar uvffabar uvooabar", "ecnt": "total rmse rmse_oerr crps", "rps": "total rps rpss rps_comp",
            "nbrcnt": "total fbs fss f_rate o_rate"}


def points(series, indy):
    """every independent value with every combination of series values"""
    return [[dict(d, field=f) for f, d in zip([indy["field"]] + [s["field"] for s in series], (i, *c))]
            for i in indy["vals"] for c in itertools.product(*[s["vals"] for s in series])]


def one(xs, sep):
    return {"label": sep.join(xs), "members": list(xs), "merge": sep == ";" and len(xs) > 1}


def event(ctx, fam, rows, series, indy, equal=None):
    from metcalcpy.sum_stat import SumStat
    rng = ctx.rng
    fi, fo = os.path.join(ctx.tmp, "s.in"), os.path.join(ctx.tmp, "s.out")
    if os.path.exists(fo):
        os.remove(fo)
    df = frame(rows)
    if rng.random() < .3:
        df = df.drop(columns="stat_value")
    cols = list(df.columns)
    rng.shuffle(cols)
    df[cols].to_csv(fi, sep="\t", index=False, na_rep="NA")
    p = {"sum_stat_input": fi, "sum_stat_output": fo, "line_type": fam, "event_equal": "False", "indy_var": indy["field"],
         "indy_vals": [v["label"] for v in indy["vals"]], "series_val_1": {s["field"]: [v["label"] for v in s["vals"]] for s in series},
         "series_val_2": {}, "fcst_var_val_1": {}, "fcst_var_val_2": {}, "fixed_vars_vals_input": {}}
    eq = []
    if equal:
        p["event_equal"] = "True"
        var, stats, fixed = equal
        p["fcst_var_val_1"] = {v: stats for v in var}
        p["fixed_vars_vals_input"] = {d["field"]: {d["field"] + "_0": d["members"]} for d in fixed}
        eq = [{"axes": [{"series": [{"field": s["field"], "members": [m for v in s["vals"] for m in v["members"]]} for s in series],
                         "vars": [{"var": v, "stats": stats} for v in var]}], "fixed": fixed, "indy": indy["field"]}]
    _, err = call(lambda: SumStat(p).calculate_stats(), limit=120)
    e = {"op": "sum", "fam": fam, "rows": enc(rows), "lower": {r["lab"]["stat_name"]: r["lab"]["stat_name"].lower() for r in rows}, "err": err or "",
         "points": points(series, indy) if any(v["merge"] for s in series + [indy] for v in s["vals"]) else [],
         "equal": eq, "consumed": CONSUMED[fam].split(), "kept": sorted(rows[0]["lab"]) + ["stat_value"], "columns": [], "out": []}
    if not err:
        try:
            out = pd.read_csv(fo, sep="\t")
        except Exception as x:  # noqa
            e["err"] = "unreadable:" + type(x).__name__
            return e
        e["columns"] = list(out.columns)
        if not len(out):
            e["kept"].remove("stat_value")
        if all(c in out.columns for c in e["kept"]):
            e["out"] = [{"lab": {c: cell(r[c]) for c in rows[0]["lab"]}, "value": cell(r["stat_value"])} for _, r in out.iterrows()]
    return e


def run(ctx):
    rng = ctx.rng
    ctx.model("MC_Sum", consts={"Vals": ctx.scale("{0, 3}", "{0, 2, 3}")})
    events = []
    fams = list(COLS)
    for k in range(ctx.scale(400, 4000)):
        fam = fams[k % len(fams)]
        merging = rng.random() < .5
        stats = rng.sample(STATS[fam], min(len(STATS[fam]), rng.choice([1, 2] if merging else [2, 5])))
        rows = mkrows(rng, fam, rng.choice([1, 3, 8, 20]), stats, unique=merging)
        names = rng.sample(["model", "vx_mask", "fcst_lead", "interp_pnts", "cov_thresh"], rng.choice([2, 3]))

        def dim(f, semi):
            xs = LABS[f][:]
            rng.shuffle(xs)
            vals = []
            if semi:
                vals.append(one(xs[:rng.choice([2, len(xs)])], ";"))
                if rng.random() < .4:
                    vals.append(one(xs[-1:], ":"))
                if rng.random() < .2 and len(xs) > 2:
                    vals.append(one(xs[-2:], ";"))
            elif rng.random() < .3:
                vals.append(one(xs[:2], ":"))
            else:
                vals = [one([x], ":") for x in xs[:rng.choice([1, 2])]]
            rng.shuffle(vals)
            return {"field": f, "vals": vals}
        which = rng.choice(["series", "indy", "both"]) if merging else ""
        indy = dim(names[0], which in ("indy", "both"))
        if not which in ("indy", "both"):
            indy["vals"] = [one([x], ":") for x in rng.sample(LABS[names[0]], 2)]
        series = [dim(f, j == 0 and which in ("series", "both")) for j, f in enumerate(names[1:])]
        equal = None
        if not merging and rng.random() < .5:
            indy["field"] = "fcst_lead"
            indy["vals"] = [one([x], ":") for x in LABS["fcst_lead"]]
            series = [s for s in series if s["field"] != "fcst_lead"][:1] or [dim("model", False)]
            fx = rng.choice([f for f in ("model", "vx_mask") if f != series[0]["field"]])
            rows = mkrows(rng, fam, rng.choice([3, 20, 60]), stats, fields=("fcst_lead", series[0]["field"], fx))
            fixed = [{"field": fx, "members": LABS[fx][:rng.choice([1, 1, 2])]}] if rng.random() < .5 else []
            equal = (rng.sample(["TMP", "HGT"], rng.choice([1, 2])), [s.upper() for s in stats], fixed)
        elif not merging and rng.random() < .4:                       # lines without a value in an identifying column
            c = rng.choice(["fcst_var", "vx_mask", "model", "fcst_valid_beg"])
            for r in rows:
                if rng.random() < .4:
                    r["lab"][c] = None
        events.append(event(ctx, fam, rows, series, indy, equal))
    ctx.judge("TV_Sum", events, key=lambda e, c: e["fam"] + ":" + c.split(" ")[0])
