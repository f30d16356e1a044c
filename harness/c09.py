"""C09: sorting by threshold and ROC tables."""
import pandas as pd
from vlib import call, num

OPS = ["<", "<=", "==", "", ">=", ">"]


def frame(rows, rng):
    d = {"fcst_thresh": [r["op"] + r["num"] for r in rows], "id": list(range(1, len(rows) + 1))}
    for j, c in enumerate(["fy_oy", "fy_on", "fn_oy", "fn_on"]):
        d[c] = [r["c"][j] for r in rows]
    cols = list(d)
    rng.shuffle(cols)
    idx = list(range(len(rows)))
    if rng.random() < .3:
        idx = rng.sample(range(100, 200), len(rows))
    return pd.DataFrame({c: d[c] for c in cols}, index=idx)


def events(ctc, rows, asc, rng):
    df = frame(rows, rng)
    ref = df.copy(deep=True)
    r, e = call(ctc.sort_by_thresh, df, ascending=asc)
    a = {"op": "sort", "rows": rows, "asc": asc, "err": e or "none", "ids": [], "texts": [], "unchanged": df.equals(ref)}
    if not e:
        a["ids"] = [int(x) for x in r["id"]]
        a["texts"] = list(r["fcst_thresh"])
    df = ref.copy(deep=True)
    r, e = call(ctc.calculate_ctc_roc, df, asc)
    b = {"op": "roc", "rows": rows, "asc": asc, "err": e or "none", "roc": [], "unchanged": df.equals(ref)}
    if not e:
        b["roc"] = [{"thresh": str(t), "pody": num(p), "pofd": num(f)} for t, p, f in zip(r["thresh"], r["pody"], r["pofd"])]
    return [a, b]


def run(ctx):
    from metcalcpy.util import ctc_statistics as ctc
    rng = ctx.rng
    ev = []
    cases = ctx.model("MC_Thr")
    for rows in cases if ctx.thorough else rng.sample(cases, 350):
        for r in rows:
            r["c"] = [rng.randint(0, 9) for _ in range(4)]
        for asc in (True, False):
            ev += events(ctc, rows, asc, rng)
    nums = ["0", "1", "2", "3", "5", "10", "20", "100", "12.5", "0.1", "0.01", "0.635", "-1", "-10", "-2.5", "1.0", "35", "273.15", "1000", "9", "99"]
    for _ in range(ctx.scale(150, 1500)):
        ops = rng.choice([OPS, [">="], [">", ">="], ["<", "<="], [""]])
        pool = [(rng.choice(ops), n) for n in rng.sample(nums, rng.choice([1, 2, 4, 6, 8]))]
        if len(ops) > 1:
            pool += [(rng.choice(ops), n) for _, n in pool[:3]]
        rows = [{"op": o, "num": n, "c": [rng.choice([0, 1, 2, 7, 50]) for _ in range(4)]} for o, n in [rng.choice(pool) for _ in range(rng.randint(1, 16))]]
        ev += events(ctc, rows, rng.random() < .5, rng)
    ctx.judge("TV_Thr", ev)
