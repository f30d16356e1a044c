"""C01: event equalization of a table."""
import itertools
import pandas as pd
from vlib import call
from eqlib import rows_of, conf, spec, members
from c14 import val, grp


def event(df, series, fixed, indy, by, rng, multi=False):
    from metcalcpy.event_equalize import event_equalize
    keys = [d["field"] for d in fixed]
    perm = [members(d["vals"]) for d in fixed]
    perm = [m[0] if len(m) == 1 and rng.random() < .3 else m for m in perm]
    if len(fixed) == 1 and rng.random() < .3:
        keys = keys[0]
    args = (indy, conf(series), keys, perm, by, multi)
    rows = rows_of(df)
    out, err = call(event_equalize, df.copy(), *args)
    e = {"op": "table", "rows": rows, "series": spec(series), "fixed": spec(fixed), "indy": indy, "byIndy": by, "err": err or "", "out": [], "again": []}
    if not err:
        e["out"] = rows_of(out)
        if "equalize" in out.columns and rng.random() < .5:
            out = out.drop("equalize", axis=1)
        again, err2 = call(event_equalize, out, *args)
        e["err"] = err2 or ""
        e["again"] = [] if err2 else rows_of(again)
    return e


TIMES = ["2020-01-01 00:00:00", "2020-01-01 12:00:00", "2020-01-02 00:00:00", "2020-01-11 00:00:00"]
# leads and independent values; in the second set, texts that run into one another
CASES = [([0, 120000, 240000], [5, 6]), ([1, 11, 2], [12, 2, 1]), ([0], [5, 6, 7, 8]), ([6, 12, 18, 24], [0])]


def table(rng, pool, n, valid):
    """a table with a row for each drawn combination of labels, or with all combinations but a few, some rows repeated"""
    leads, xs = rng.choice(CASES)
    pool = {f: (xs if f == "x" else vs) for f, vs in pool.items()}
    times = rng.sample(TIMES, rng.choice([1, 2, 3]))
    leads = leads[:rng.choice([1, 2, 3])]
    rows = []
    if rng.random() < .5:
        for k in range(n):
            rows.append({f: rng.choice(vs) for f, vs in pool.items()} | {valid: rng.choice(times), "fcst_lead": rng.choice(leads)})
    else:
        full = 1
        for vs in list(pool.values()) + [times, leads]:
            full *= len(vs)
        keep = min(1, rng.choice([.6, .9, .97, 1]), 2.5 * n / full)
        for combo in itertools.product(*pool.values(), times, leads):
            if rng.random() < keep:
                rows.append(dict(zip(list(pool) + [valid, "fcst_lead"], combo)))
        rng.shuffle(rows)
    rows = rows or [{f: vs[0] for f, vs in pool.items()} | {valid: times[0], "fcst_lead": leads[0]}]
    for k, r in enumerate(rows):
        r["val"] = rng.choice([None, 1.5, 2, -3.25])
        r["id"] = f"r{k}"
    if rng.random() < .3:                                         # rows that cannot be told apart
        rows = [{c: x for c, x in r.items() if c not in ("id", "val")} for r in rows]
        rows = [dict(r) for r in rows for _ in range(rng.choice([1, 1, 2]))]
    df = pd.DataFrame(rows)
    if rng.random() < .2:
        df.index = [rng.randint(0, 5) for _ in range(len(df))]
    return df


POOL = {"model": ["A", "B", "GFS v2"], "interp_pnts": [1, 9, 25], "lev": ["P500", "Z2", None], "thr": [0.5, 1.25, 10.0], "x": [5, 6],
        "run": ["2020-01-01 00:00:00", "2020-01-01 06:00:00", "2019-12-31 18:00:00"]}


def dims(rng, fields, na=True):
    res = []
    for f in fields:
        xs = [("NA" if x is None else str(x)) for x in POOL[f] if na or x is not None]
        rng.shuffle(xs)
        xs = xs[:rng.choice([1, 2, 2, 3])]
        res.append({"field": f, "vals": ([grp(xs[:2])] + [val(x) for x in xs[2:]]) if len(xs) >= 2 and rng.random() < .3 else [val(x) for x in xs]})
    return res


def run(ctx):
    rng = ctx.rng
    events = []
    cases = ctx.model("MC_Equalize", workers=4)
    lim = ctx.scale(900, 8000)
    for c in (cases if len(cases) <= lim else rng.sample(cases, lim)):
        if not c["rows"]:
            continue
        rng.shuffle(c["rows"])
        df = pd.DataFrame(c["rows"])
        for col in ("fcst_lead", "x"):
            df[col] = df[col].astype(int)
        mk = lambda ds: [{"field": d["field"], "vals": [val(m) for m in d["members"]]} for d in ds]
        events.append(event(df, mk(c["q"]["series"]), mk(c["q"]["fixed"]), "x", c["q"]["byIndy"], rng))
    for _ in range(ctx.scale(500, 6000)):
        valid = rng.choice(["fcst_valid_beg", "fcst_valid"])
        fs = rng.sample(["model", "interp_pnts", "lev", "thr", "run"], rng.choice([1, 2, 2, 3]))
        k = rng.randint(0, len(fs))
        used = {f: POOL[f] for f in POOL if f in fs or f == "x" or rng.random() < .5}
        df = table(rng, used, rng.choice([3, 10, 30, 60]), valid)
        series, fixed = dims(rng, fs[:k], False), dims(rng, fs[k:])
        if rng.random() < .2:
            series.append({"field": valid if rng.random() < .5 else "fcst_lead", "vals": [grp(["2020-01-01 00:00:00", "2020-01-01 12:00:00"])] if rng.random() < .5 else [val("0")]})
        events.append(event(df, series, fixed, rng.choice(["x", "x", "fcst_lead", "", valid]), rng.random() < .7, rng, rng.random() < .3))
    ctx.judge("TV_Equalize", events, key=lambda e, c: c.split(" ")[0])
