"""C23: serial-dependence statistics."""
import numpy as np
import pandas as pd
from fractions import Fraction
from vlib import num, call

KINDS = ["mean", "sum", "median", "medianplain"]
RES = ["statistic", "p_value", "runs", "mean_value", "variance"]


def forms(rng, s):
    """the series as the code may receive it"""
    miss = rng.choice([None, float("nan")])
    xs = [miss if x is None else x for x in s]
    if None not in xs and rng.random() < .4:
        return np.array(xs, dtype=float)
    return xs


def probes(ctx, s):
    from metcalcpy.util import utils as u
    from metcalcpy.util.correlation import acf
    from metcalcpy.util.wald_wolfowitz_runs_test import runs_test
    rng = ctx.rng
    t = [num(x) for x in s]
    lag = rng.choice([-1, -1, 0, 1, 2, 5, 50])
    ty = rng.choice(["correlation", "covariance"])
    out, err = call(acf, forms(rng, s), ty, None if lag < 0 else lag)
    yield {"op": "acf", "s": t, "type": ty, "lag": lag, "err": err or "", "out": ["none"] if out is None else [num(x) for x in out]}
    out, err = call(u.autocor_coef, forms(rng, s))
    yield {"op": "ar1", "s": t, "err": err or "", "out": num(out)}
    fns = {"mean": u.compute_std_err_from_mean, "sum": u.compute_std_err_from_sum, "median": u.compute_std_err_from_median_variance_inflation_factor,
           "medianplain": u.compute_std_err_from_median_no_variance_inflation_factor}
    for k in rng.sample(KINDS, 2):
        out, err = call(fns[k], forms(rng, s))
        yield {"op": "stderr", "kind": k, "s": t, "err": err or "", "out": [] if err else [num(x) for x in out]}
    alt, thr = rng.choice(["two.sided", "left.sided", "right.sided"]), rng.choice(["median", "mean"])
    out, err = call(runs_test, forms(rng, s), alt, thr)
    yield {"op": "runs", "s": t, "alt": alt, "thr": thr, "err": err or "", "out": {} if err else {k: num(out[k]) if k in out else "nokey" for k in RES}}


def revisions(ctx, n):
    from metcalcpy.util.utils import calculate_mtd_revision_stats
    rng = ctx.rng
    for _ in range(n):
        ids = rng.sample(range(20), rng.choice([1, 2, 3, 6]))
        rows = []
        drift = rng.choice([0, 0, 2])
        for k in ids:
            x = rng.randint(-8, 8)
            for _ in range(rng.choice([1, 2, 4, 9])):
                x = (x if drift else 0) + rng.randint(-4, 4)
                rows.append({"id": str(k), "value": None if rng.random() < .05 else x / rng.choice([1, 2, 4])})
        if rng.random() < .2:
            rng.shuffle(rows)
        df = pd.DataFrame({"stat_value": [r["value"] for r in rows], "revision_id": [int(r["id"]) for r in rows]})
        df["stat_value"] = df["stat_value"].astype(float)
        lag = rng.choice([-1, -1, 1, 1, 2, 3, 20])
        out, err = call(calculate_mtd_revision_stats, df, None if lag < 0 else lag)
        yield {"op": "revision", "rows": [{"id": r["id"], "value": num(r["value"])} for r in rows], "lag": lag, "err": err or "",
               "out": {} if err else {"r": num(out["auto_cor_r"]), "p": num(out["auto_cor_p"]), "ww": num(out["ww_run"])}}


def random_series(rng):
    n = rng.choice([1, 2, 3, 4, 5, 8, 12, 25, 60])
    kind = rng.choice(["walk", "walk", "noise", "trend", "flat", "step", "ar"])
    x, s = rng.randint(-20, 20) / 4, []
    for k in range(n):
        if kind == "walk":
            x += rng.randint(-4, 4) / 4
        elif kind == "noise":
            x = rng.randint(-30, 30) / 4
        elif kind == "trend":
            x += .25
        elif kind == "step":
            x = 1 if k < n // 2 else 5
        elif kind == "ar":
            x = round(x * .8 + rng.gauss(0, 1), 2)
        s.append(x)
    if kind == "flat" and n > 1 and rng.random() < .5:
        s[-1] += 4
    if rng.random() < .4:
        s = [None if rng.random() < .15 else x for x in s]
    return s


def run(ctx):
    rng = ctx.rng
    cases = ctx.model("MC_Serial", consts={"N": ctx.scale(5, 6)})
    events = []
    for c in rng.sample(cases, ctx.scale(500, len(cases))):
        events += probes(ctx, [None if x == "none" else float(Fraction(x)) for x in c["s"]])
    for _ in range(ctx.scale(500, 5000)):
        events += probes(ctx, random_series(rng))
    events += revisions(ctx, ctx.scale(250, 2500))
    ctx.judge("TV_Serial", events)
