"""C17: confidence limits are the configured percentiles of the replicates."""
import contextlib, io, os
from fractions import Fraction
import numpy as np
import pandas as pd
from vlib import num, call
from aggrun import params, run_agg, cell
import c10, c14, c18
from c14 import val


def val_of(s):
    return None if s == "none" else float(Fraction(s))


def limits(method, v, reps, alpha, batch=None):
    """a statistic with prescribed values: v on the data, reps on the replicates in turn"""
    from metcalcpy.bootstrap import bootstrap_and_value
    queue = [val_of(x) for x in reps]
    values = np.arange(8.).reshape(4, 2)

    def stat(a):
        if a.ndim == 2:
            return [val_of(v)]
        return [queue.pop(0) for _ in range(a.shape[0])]

    def go():
        with contextlib.redirect_stdout(io.StringIO()):
            return bootstrap_and_value(values, stat, alpha=float(Fraction(alpha)), num_iterations=len(reps), iteration_batch_size=batch, ci_method=method)
    r, err = call(go)
    ex = lambda s: s if s == "none" else num(Fraction(s))
    e = {"op": "limits", "method": method, "v": ex(v), "reps": [ex(x) for x in reps], "alpha": alpha, "err": err or "", "low": "", "high": "", "value": ""}
    if not err:
        e.update(low=num(r.lower_bound), high=num(r.upper_bound), value=num(r.value))
    return e


def curve(rng, method, alpha):
    from metcalcpy.bootstrap import bootstrap_and_value
    n, k = rng.choice([1, 3, 6]), rng.choice([2, 5, 9])
    v = [rng.randint(-30, 30) / 8 for _ in range(n)]
    reps = [[rng.randint(-30, 30) / 8 for _ in range(n)] for _ in range(k)]
    if rng.random() < .3:
        for r in reps:
            r[0] = 1.5
    gone = set(rng.sample(range(k), rng.choice([0, 0, 1])))
    queue = [None if j in gone else r for j, r in enumerate(reps)]
    cl = [0.1 * (i + 1) for i in range(n)]

    def mk(x):
        return None if x is None else {"cl": np.array(cl), "V": np.array(x), "vmax": 1, "F": 0, "H": 1, "s": .5}

    def stat(a):
        if a.ndim == 2:
            return [mk(v)]
        return [mk(queue.pop(0)) for _ in range(a.shape[0])]

    def go():
        with contextlib.redirect_stdout(io.StringIO()):
            return bootstrap_and_value(np.arange(8.).reshape(4, 2), stat, alpha=float(Fraction(alpha)), num_iterations=k, ci_method=method, eclv=True, save_data=False)
    r, err = call(go)
    e = {"op": "curve", "method": method, "alpha": alpha, "v": [num(x) for x in v], "reps": [[num(x) for x in r] for j, r in enumerate(reps) if j not in gone], "err": err or "", "low": [], "high": []}
    if not err:
        e.update(low=[num(x) for x in r.lower_bound], high=[num(x) for x in r.upper_bound])
    return e


# ---- whole runs: each returns, per output line, (value, low, high) or an error
def run_stat(rng):
    """aggregation run with a derived difference"""
    xs = [[rng.randint(-40, 40) / 8 for _ in range(6)] for _ in range(2)]

    def go(ctx, alpha, method, seed):
        rows = [{"model": m, "fcst_lead": 120000, "fcst_var": "TMP", "stat_name": "FBAR", "fcst_valid_beg": f"2020-01-{i + 1:02d} 00:00:00", "total": 1,
                 "fbar": x, "obar": 1, "fobar": 1, "ffbar": 1, "oobar": 1, "mae": 0, "stat_value": "NA"} for m, ys in zip("AB", xs) for i, x in enumerate(ys)]
        p = params(line_type="sl1l2", series_val_1={"model": ["A", "B"]}, list_stat_1=["FBAR"], fcst_var_val_1={"TMP": ["FBAR"]}, indy_vals=["120000"],
                   num_iterations=5, alpha=alpha, random_seed=seed, num_threads=1, method=method, derived_series_1=[["A TMP FBAR", "B TMP FBAR", "DIFF"]])
        out, err = run_agg(ctx.tmp, pd.DataFrame(rows), p)
        return err, None if err else [(cell(r["stat_value"]), cell(r["stat_btcl"]), cell(r["stat_btcu"])) for _, r in out.iterrows()]
    return go


def run_eclv(rng):
    from metcalcpy.agg_eclv import AggEclv
    counts = [[rng.randint(1, 30) for _ in range(4)] for _ in range(6)]

    def go(ctx, alpha, method, seed):
        fi, fo = os.path.join(ctx.tmp, "ei.data"), os.path.join(ctx.tmp, "eo.data")
        pd.DataFrame([{"model": "A", "fcst_valid_beg": f"2020-01-{k + 1:02d} 00:00:00", "fcst_lead": 120000, "fcst_var": "X", "stat_name": "ECLV", "stat_value": "NA",
                       "total": sum(c), "fy_oy": c[0], "fy_on": c[1], "fn_oy": c[2], "fn_on": c[3]} for k, c in enumerate(counts)]).to_csv(fi, sep="\t", index=False)
        p = {"random_seed": seed, "indy_var": "", "method": method, "num_iterations": 5, "event_equal": "False", "agg_stat_input": fi, "agg_stat_output": fo,
             "fixed_vars_vals_input": {}, "series_val_1": {"model": ["A"]}, "alpha": alpha, "line_type": "ctc", "num_threads": 1, "indy_vals": [],
             "circular_block_bootstrap": True, "equalize_by_indep": "True", "cl_step": 0.25}
        _, err = call(lambda: AggEclv(p).calculate_stats_and_ci(), limit=60)
        if err:
            return err, None
        o = pd.read_csv(fo, sep="\t", dtype=str, keep_default_na=False)
        return None, [(cell(r["y_pnt_i"]), cell(r["stat_btcl"]), cell(r["stat_btcu"])) for _, r in o.iterrows()]
    return go


def run_obj(rng):
    ax = {"dims": [{"field": "model", "vals": [val("A")]}, {"field": "fcst_lead", "vals": [val("60000")]}], "series": 1, "stats": ["OBJMISSES", "RATIO_FSA_ASA"], "var": "APCP"}
    rows = [{"lab": {"model": "A", "fcst_lead": "60000", "fcst_var": "APCP", "fcst_valid": f"2020-01-{d + 1:02d} 00:00:00"}, "obj": dict(c18.obj(rng), simple=1, matched=k % 2)}
            for d in range(5) for k in range(rng.randint(1, 4))]

    class Seeded:
        pass

    def go(ctx, alpha, method, seed):
        c = Seeded()
        import random
        c.tmp, c.rng = ctx.tmp, random.Random(seed)
        e = c18.event(c, [ax], rows, 5, False, alpha, method)
        return e["err"] or None, [(l["value"], l["low"], l["high"]) for l in e["lines"]]
    return go


def pipeline(ctx, name, make):
    rng = ctx.rng
    go, seed = make(rng), rng.randrange(1, 10 ** 6)
    base = {}
    for a in (0, .5, 1):
        err, base[a] = go(ctx, a, "perc", seed)
        if err:
            yield {"op": "run", "what": name, "err": err}
            return
    for a, method in ((.05, "perc"), (rng.choice([.1, .2, .3, .7]), "perc"), (.05, "pivotal"), (rng.choice([.2, .4, .6]), "pivotal")):
        err, o = go(ctx, a, method, seed)
        if err:
            yield {"op": "run", "what": name, "err": err}
            continue
        for k in range(len(o)):
            b0, b5, b1 = base[0][k], base[.5][k], base[1][k]
            yield {"op": "run", "what": name, "err": "", "method": method, "alpha": num(Fraction(str(a))), "v": o[k][0], "low": o[k][1], "high": o[k][2],
                   "basis": [b0[1], b5[1], b1[1], b5[2], b0[2]], "median": [b1[1], b1[2]]}


def run(ctx):
    rng = ctx.rng
    events = []
    cases = ctx.model("MC_Limits")
    for c in (cases if ctx.thorough else rng.sample(cases, 1500)):
        events.append(limits(c["method"], c["v"], c["reps"], c["alpha"], rng.choice([None, 1, 2])))
    for _ in range(ctx.scale(500, 5000)):
        k = rng.choice([1, 2, 4, 9, 30, 101])
        pool = [num(rng.randint(-500, 500) / 8) for _ in range(rng.choice([1, 3, k]))] + (["none"] if rng.random() < .3 else [])
        reps = [rng.choice(pool) for _ in range(k)]
        events.append(limits(rng.choice(["perc", "perc", "pivotal", "other"]) if rng.random() < .95 else "none", rng.choice(pool + ["7/8"]), reps,
                             rng.choice(["1/20", "1/10", "1/100", "1/3", "1", "0", "4/5"]), rng.choice([None, 3])))
    events = [e for e in events if e["method"] in ("perc", "pivotal")]
    for _ in range(ctx.scale(120, 1500)):
        events.append(curve(rng, rng.choice(["perc", "perc", "pivotal"]), rng.choice(["1/20", "1/5", "1/2", "1"])))
    for _ in range(ctx.scale(6, 60)):
        for name, mk in (("stat", run_stat), ("eclv", run_eclv), ("object", run_obj)):
            events += pipeline(ctx, name, mk)
    ctx.judge("TV_Limits", events, key=lambda e, c: e["op"] + ":" + e.get("what", e.get("method", "")) + ":" + c.split(" ")[0])
