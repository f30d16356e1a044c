"""C18: the object-ratio bootstrap run."""
import os
import pandas as pd
from vlib import call
from aggrun import params
import c11, c14
from c14 import val, grp, lines_of, config

STATS = None


def all_stats():
    global STATS
    if STATS is None:
        import metcalcpy.agg_stat_bootstrap as b
        STATS = {s["name"].upper(): s for s in c11.stats_of(vars(b))}
    return STATS


def obj(rng, kind="2d"):
    return {"fcst": rng.randint(0, 1), "simple": rng.choice([1, 1, 0]), "matched": rng.randint(0, 1), "area": str(rng.choice([1, 7, 36, 0.25, 520])),
            "volume": str(rng.choice([1, 3, 11, 4000])), "type": kind}


def event(ctx, axes, rows, iterations=1, exact=False, alpha=0.05, method="perc", threads=1):
    from metcalcpy.agg_stat_bootstrap import AggStatBootstrap
    fi, fo = os.path.join(ctx.tmp, "in.agg_stat_bootstrap"), os.path.join(ctx.tmp, "out.data")
    if os.path.exists(fo):
        os.unlink(fo)
    order = rows[:]
    ctx.rng.shuffle(order)
    recs = []
    for k, r in enumerate(order):
        o = r["obj"]
        recs.append({**r["lab"], "object_id": f"O{k}", "fcst_flag": o["fcst"], "simple_flag": o["simple"], "matched_flag": o["matched"],
                     "area": o["area"], "volume": o["volume"], "object_type": o["type"]})
    cols = list(recs[0])
    ctx.rng.shuffle(cols)
    pd.DataFrame(recs)[cols].to_csv(fi, sep="\t", index=False)
    p = config("mode", axes, num_iterations=iterations, alpha=alpha, method=method, num_threads=threads)
    p.update(agg_stat_input=fi, agg_stat_output=fo, random_seed=ctx.rng.randrange(1, 10 ** 6))
    _, err = call(lambda: AggStatBootstrap(p).calculate_values(), limit=200)
    lines = []
    if not err:
        out = pd.read_csv(fo, sep="\t", dtype=str, keep_default_na=False)
        lines = lines_of(out, axes)
    names = sorted({s for ax in axes for s in ax["stats"]})
    return {"op": "run", "axes": axes, "lower": {s: all_stats()[s] for s in names}, "iterations": iterations, "exact": exact,
            "rows": rows, "lines": lines, "err": err or ""}


def rows_of(rng, cells, times, most=3):
    rows = []
    for c in cells:
        for t in times:
            for _ in range(rng.randint(0 if len(times) > 1 else 1, most)):
                rows.append({"lab": {**c, "fcst_valid": t}, "obj": obj(rng)})
    return rows


TIMES = ["2020-01-01 00:00:00", "2020-01-02 00:00:00", "2020-01-03 12:00:00"]


def second(rng, ax):
    b = dict(ax, stats=rng.sample(ax["stats"] + ["OBJPODY", "RATIO_FSU_FSA"], 1))
    b["var"] = rng.choice([ax["var"], "APCP", "OTHER"])
    b["dims"] = [dict(d) for d in ax["dims"]]
    return b


def run(ctx):
    rng = ctx.rng
    names = sorted(all_stats())
    events = []
    cases = ctx.model("MC_ObjRun")
    for c in rng.sample(cases, ctx.scale(150, len(cases))):
        present = [tuple(x) for x in c["present"]] or [("Q", "60000")]
        cells = [{"model": m, "fcst_lead": l, "interp": i, "fcst_var": v} for m, l in present for i in ("1", "9") for v in ("APCP", "OTHER")]
        rows = rows_of(rng, cells, TIMES[:2], 2)
        if not rows:
            continue
        axes = [c["ax"]] + ([second(rng, c["ax"])] if c["two"] else [])
        events.append(event(ctx, axes, rows))
    for k in range(ctx.scale(60, 600)):
        boot = k % 3 == 0
        ns = rng.choice([1, 1, 2])
        fields = rng.sample(["model", "interp", "vx_mask"], ns)
        pool = {"model": ["A", "B", "C"], "interp": ["1", "9"], "vx_mask": ["X", "Y"]}
        dims = []
        for f in fields:
            xs = rng.sample(pool[f], 2)
            dims.append({"field": f, "vals": rng.choice([[val(xs[0]), val(xs[1])], [grp(xs)], [val(xs[1]), grp(xs)], [val(xs[0])]])})
        dims.append({"field": "fcst_lead", "vals": [val(x) for x in rng.sample(["60000", "120000", "180000"], rng.choice([1, 2]))]})
        ax = {"dims": dims, "series": ns, "stats": rng.sample(names, rng.choice([1, 2, 4])), "var": rng.choice(["APCP", "APCP", ""])}
        cells = []
        for _ in range(rng.choice([2, 5, 9])):
            cells.append({"model": rng.choice("ABC"), "interp": rng.choice(["1", "9"]), "vx_mask": rng.choice("XY"), "fcst_lead": rng.choice(["60000", "120000"]),
                          "fcst_var": rng.choice(["APCP", "APCP", "OTHER"])})
        rows = rows_of(rng, cells, TIMES[:rng.choice([2, 3])])
        if not rows:
            continue
        kind = rng.choice(["2d", "2d", "mixed"])
        if kind == "mixed":
            for r in rows:
                r["obj"]["type"] = rng.choice(["2d", "3d"])
        axes = [ax] + ([second(rng, ax)] if rng.random() < .3 else [])
        if boot:
            exact = rng.random() < .6
            events.append(event(ctx, axes, rows, 700 if exact else rng.choice([2, 10]), exact, 0 if exact else rng.choice([.05, .3]), threads=rng.choice([1, 1, 1, 2]) if not exact else 1))
        else:
            events.append(event(ctx, axes, rows))
    ctx.judge("TV_ObjRun", events, key=lambda e, c: c.split(" ")[0])
