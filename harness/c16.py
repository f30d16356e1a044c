"""C16: bootstrap replicates are circular-block resamples."""
import contextlib, io, math
import numpy as np
from vlib import num, call
from c10 import run_driver
from aggrun import params, run_agg, cell
import pandas as pd


def encode(a):
    """a statistic that spells the rows it was computed from (first column: row number from 0)"""
    a = np.asarray(a)
    ids = a[..., 0].astype(int)
    n = ids.shape[-1]
    w = np.array([n ** k for k in range(n)], dtype=float)
    if ids.ndim == 1:
        return [float((ids * w).sum())]
    return [float((r * w).sum()) for r in ids]


def decode(x, n):
    x = int(x)
    out = []
    for _ in range(n):
        out.append(x % n + 1)
        x //= n
    return out


def sample(ctx, n, block, iterations, batch, threads, cover=False, seed=None):
    from metcalcpy.bootstrap import bootstrap_and_value
    values = np.array([[i, 7.5] for i in range(n)])
    np.random.seed(ctx.rng.randrange(2 ** 31) if seed is None else seed)

    def go():
        with contextlib.redirect_stdout(io.StringIO()):
            return bootstrap_and_value(values, encode, num_iterations=iterations, iteration_batch_size=batch, num_threads=threads,
                                       save_distributions=True, block_length=block)
    r, err = call(go, limit=120)
    e = {"op": "sample", "n": n, "block": block, "iterations": iterations, "batch": str(batch), "threads": threads, "cover": cover, "err": err or "", "reps": [], "value": []}
    if not err:
        e["reps"] = [decode(x, n) for x in r.distributions]
        e["value"] = decode(r.value, n)
    return e


def recorded(ctx, n, block, iterations, batch):
    """larger tables: the statistic records what it is given"""
    from metcalcpy.bootstrap import bootstrap_and_value
    values = np.array([[i, 1] for i in range(n)])
    seen, orig = [], []

    def stat(a):
        if a.ndim == 2:
            orig.append((a[:, 0] + 1).tolist())
            return [0.]
        seen.extend((a[:, :, 0] + 1).tolist())
        return [float(k) for k in range(len(a))]
    np.random.seed(ctx.rng.randrange(2 ** 31))

    def go():
        with contextlib.redirect_stdout(io.StringIO()):
            return bootstrap_and_value(values, stat, num_iterations=iterations, iteration_batch_size=batch, num_threads=1, block_length=block)
    _, err = call(go)
    return {"op": "sample", "n": n, "block": block, "iterations": iterations, "batch": str(batch), "threads": 1, "cover": False, "err": err or "",
            "reps": seen, "value": orig[0] if orig else []}


def derived(ctx, xs, circular, iterations, seed):
    """the difference of a mean of one model and another of the second, whose cases differ by xs"""
    rng = ctx.rng
    (m1, s1, c1), (m2, s2, c2) = rng.choice([(("A", "FBAR", "fbar"), ("B", "OBAR", "obar")), (("B", "FBAR", "fbar"), ("A", "FBAR", "fbar")), (("A", "OBAR", "obar"), ("A", "FBAR", "fbar"))])
    rows = []
    for i, x in enumerate(xs):
        y = rng.randint(-40, 40) / 8
        v = {m: {"fbar": rng.randint(-40, 40) / 8, "obar": rng.randint(-40, 40) / 8} for m in "AB"}
        v[m1][c1], v[m2][c2] = x + y, y
        for m in {m1, m2}:
            for s in {s1, s2}:
                rows.append({"model": m, "fcst_lead": 120000, "fcst_var": "TMP", "stat_name": s, "fcst_valid_beg": f"2020-01-{i + 1:02d} 00:00:00", "total": 1, **v[m],
                             "fobar": 1, "ffbar": 1, "oobar": 1, "mae": 0, "stat_value": "NA"})
    rng.shuffle(rows)
    st = sorted({s1, s2})
    p = params(line_type="sl1l2", series_val_1={"model": sorted({m1, m2})}, list_stat_1=st, fcst_var_val_1={"TMP": st}, indy_vals=["120000"], derived_series_1=[[f"{m1} TMP {s1}", f"{m2} TMP {s2}", "DIFF"]],
               num_iterations=iterations, circular_block_bootstrap=str(circular), alpha=0, random_seed=seed, num_threads=1)
    out, err = run_agg(ctx.tmp, pd.DataFrame(rows), p)
    if err:
        return err, None
    r = out.iloc[-1]
    return None, (cell(r["stat_value"]), cell(r["stat_btcl"]), cell(r["stat_btcu"]))


def agg(ctx, xs, circular, iterations, seed, alpha=0, threads=1, method="perc"):
    n = len(xs)
    rows = [{"model": "A", "fcst_lead": 120000, "fcst_var": "TMP", "stat_name": "FBAR", "fcst_valid_beg": f"2020-01-{i + 1:02d} 00:00:00", "total": 1,
             "fbar": x, "obar": 1, "fobar": 1, "ffbar": 1, "oobar": 1, "mae": 0, "stat_value": "NA"} for i, x in enumerate(xs)]
    ctx.rng.shuffle(rows)
    p = params(line_type="sl1l2", series_val_1={"model": ["A"]}, list_stat_1=["FBAR"], fcst_var_val_1={"TMP": ["FBAR"]}, indy_vals=["120000"],
               num_iterations=iterations, circular_block_bootstrap=str(circular), alpha=alpha, random_seed=seed, num_threads=threads, method=method)
    out, err = run_agg(ctx.tmp, pd.DataFrame(rows), p)
    if err:
        return err, None
    r = out.iloc[0]
    return None, (cell(r["stat_value"]), cell(r["stat_btcl"]), cell(r["stat_btcu"]))


def run(ctx):
    rng = ctx.rng
    events = []
    for c in ctx.model("MC_Boot"):
        n, L, k = c["n"], c["block"], c["reps"]
        cover = k <= 625
        its = min(int(k * (math.log(k + 1) + 22)) + 30, 20000) if cover else 400
        events.append(sample(ctx, n, L, its, None, 1, cover))
        for batch in (1, 2, 3, 7, 50):
            events.append(sample(ctx, n, L, rng.choice([1, 2, 5, 10, 11]), batch, 1))
    for _ in range(ctx.scale(60, 600)):
        n = rng.randint(2, 13)
        events.append(sample(ctx, n, rng.randint(1, n), rng.choice([1, 3, 40, 300]), rng.choice([None, 1, 4, 100, 1000]), 1))
    for n in (20, 30, 47, 100):
        for L in {1, 2, int(math.sqrt(n)), n - 1, n}:
            events.append(recorded(ctx, n, L, rng.choice([5, 11]), rng.choice([None, 1, 4])))
    for threads in (2, 3, 4):
        for its in (1, 5, 12, 250):
            n = rng.randint(2, 9)
            events.append(sample(ctx, n, rng.randint(1, n), its, rng.choice([None, 4]), threads))
    for threads in (1, 1, 1, 2, 3):
        s, n = rng.randrange(2 ** 31), rng.randint(3, 9)
        L, its = rng.randint(1, n), rng.choice([5, 20])
        a, b = (sample(ctx, n, L, its, None, threads, seed=s) for _ in range(2))
        events.append({"op": "repeat", "what": f"threads {threads}", "first": a["reps"], "second": b["reps"], "err": a["err"] or b["err"]})
    for _ in range(ctx.scale(24, 200)):
        circular = rng.random() < .7
        n = rng.choice([4, 4, 4, 5, 9]) if circular else rng.choice([2, 3])
        block = math.isqrt(n) if circular else 1
        k = n ** -(-n // block)
        xs = [rng.randint(-40, 40) / 8 for _ in range(n)]
        its = int(k * 25) + 50
        seed = rng.randrange(1, 10 ** 6)
        err, o = (derived if rng.random() < .5 else agg)(ctx, xs, circular, its, seed)
        events.append({"op": "extreme", "x": [num(x) for x in xs], "block": block, "value": o[0] if o else "", "low": o[1] if o else "", "high": o[2] if o else "", "err": err or ""})
    for _ in range(ctx.scale(5, 60)):
        circular = rng.random() < .7
        n = rng.choice([4, 4, 5]) if circular else 3
        block = math.isqrt(n) if circular else 1
        rows = [{"m": "A", "case": f"2020-01-{1 + i:02d} 00:00:00", "c": [str(rng.choice([1, 3, 8, 20, 60])) for _ in range(4)]} for i in range(n)]
        e = run_driver(ctx, "ctc", ["A"], rows, rng.choice([.2, .3]), False, True, False, num_iterations=25 * n ** -(-n // block) + 50, alpha=0,
                       circular_block_bootstrap=circular, random_seed=rng.randrange(1, 10 ** 6))
        events.append({"op": "eclv", "rows": [r["c"] for r in rows], "grid": e["grid"], "block": block, "out": e["out"], "err": e["err"]})
    for threads in (1, 1, 2):
        xs = [rng.randint(-40, 40) / 8 for _ in range(9)]
        seed = rng.randrange(1, 10 ** 6)
        (e1, a), (e2, b) = agg(ctx, xs, True, 20, seed, .05, threads), agg(ctx, xs, True, 20, seed, .05, threads)
        events.append({"op": "repeat", "what": "run", "first": list(a or ()), "second": list(b or ()), "err": e1 or e2 or ""})
    ctx.judge("TV_Boot", events, key=lambda e, c: e["op"] + ":" + c.split(" ")[0])
