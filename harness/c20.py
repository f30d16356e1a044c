"""C20: merging the lines of ';'-groups."""
from fractions import Fraction
from vlib import call, num
from eqlib import cell
from sumlib import COLS, STATS, LABS, mkrows, frame, enc
import c14


def observed(df, rows):
    labs, nums = list(rows[0]["lab"]), list(rows[0]["num"])
    return [{"lab": {c: cell(r[c]) for c in labs}, "num": {c: cell(r[c]) for c in nums}} for _, r in df.iterrows()]


def group(rng, field, used=()):
    xs = [x for x in LABS[field] if x not in used]
    rng.shuffle(xs)
    xs = xs[:rng.choice([2, 2, 3])]
    return {"field": field, "label": ";".join(xs), "members": xs}


def merge(fam, rows, groups, plain):
    from metcalcpy.util.utils import aggregate_field_values
    conf = {f: list(v) for f, v in plain.items()}
    for g in groups:
        conf.setdefault(g["field"], []).append(g["label"])
    df = frame(rows)
    out, err = call(aggregate_field_values, conf, df, fam)
    order = [g for f in conf for g in groups if g["field"] == f]
    return {"op": "merge", "fam": fam, "rows": enc(rows), "groups": order, "err": err or "", "out": [] if err else observed(out, rows)}


def agg(ctx, fam):
    """an aggregation run with a ';'-group among its independent values gives the pooled statistic"""
    rng = ctx.rng
    stats = rng.sample([s for s in STATS[fam] if not s.startswith("vcnt")], rng.choice([1, 2]))
    indy = rng.choice(["fcst_lead", "vx_mask", "interp_pnts"])
    g = group(rng, indy)
    vals = [c14.grp(g["members"], ";")] + [c14.val(x) for x in rng.sample(LABS[indy], 1)]
    axes = [{"dims": [{"field": "model", "vals": [c14.val("A"), c14.val("B")]}, {"field": indy, "vals": vals}], "series": 1,
             "stats": [s.upper() for s in stats], "var": "TMP"}]
    rows = mkrows(rng, fam, rng.choice([3, 10, 25]), stats, nvars=1)
    e = c14.event(ctx, {"nbrcnt": "nbr_cnt", "nbrctc": "nbr_ctc"}.get(fam, fam), axes, [{"lab": r["lab"], "num": {c: float(x) for c, x in r["num"].items()}} for r in rows])
    return e


def run(ctx):
    rng = ctx.rng
    events = []
    cases = ctx.model("MC_Sum", consts={"Vals": ctx.scale("{0, 3}", "{0, 2, 3}")})
    lim = ctx.scale(250, 3000)
    for c in (cases if len(cases) <= lim else rng.sample(cases, lim)):
        fam = c["fam"]
        rows = []
        for k, (r, m) in enumerate(zip(c["rows"], "EW")):
            d = {x: Fraction(0) for x in COLS[fam] + ["total"]}
            d.update({x: Fraction(str(y)) for x, y in r["num"].items()})
            rows.append({"lab": {"vx_mask": m, "fcst_lead": "0", "fcst_valid_beg": "2020-01-01 00:00:00", "id": f"r{k}"}, "num": d})
        events.append(merge(fam, rows, [{"field": "vx_mask", "label": "E;W", "members": ["E", "W"]}], {}))
    fams = list(COLS)
    for k in range(ctx.scale(350, 4000)):
        fam = fams[k % len(fams)]
        rows = mkrows(rng, fam, rng.choice([1, 3, 10, 30]), rng.sample(STATS[fam], rng.choice([1, 1, 2])), nvars=rng.choice([1, 2]))
        if not rows:
            continue
        fs = rng.sample(["vx_mask", "fcst_lead", "interp_pnts", "cov_thresh", "model"], rng.choice([1, 1, 1, 2]))
        groups = [group(rng, f) for f in fs]
        plain = {"model": ["A", "B:C"]} if "model" not in fs and rng.random() < .4 else {}
        events.append(merge(fam, rows, groups, plain))
    ctx.judge("TV_Sum", events, key=lambda e, c: e["fam"] + ":" + c.split(" ")[0])
    runs = [agg(ctx, fams[k % len(fams)]) for k in range(ctx.scale(120, 1500))]
    for e in runs:
        e["anyN"] = True
    ctx.judge("TV_Agg", runs, key=lambda e, c: "run:" + e["fam"] + ":" + c.split(" ")[0])
