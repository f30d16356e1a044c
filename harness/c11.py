"""C11: object ratio statistics."""
import re
import numpy as np
from vlib import callnum, num


def stats_of(ns):
    """every ratio statistic the object run can be asked for, described by its name"""
    res = []
    for f in sorted(ns):
        m = re.fullmatch(r"calculate_(?:(2d|3d)_)?(ratio|arearat|volrat)_([foa][sca][mua])_([foa][sca][mua])", f)
        if m:
            by = {"ratio": "count", "arearat": "area", "volrat": "volume"}[m.group(2)]
            res.append({"name": f[10:], "kind": "ratio", "by": by, "dim": m.group(1) or "any", "num": list(m.group(3)), "den": list(m.group(4))})
            continue
        m = re.fullmatch(r"calculate_(?:(2d|3d)_)?obj([av]?)(hits|misses|fas|csi|pody|far)", f)
        if m:
            res.append({"name": f[10:], "kind": m.group(3), "by": {"": "count", "a": "area", "v": "volume"}[m.group(2)], "dim": m.group(1) or "any",
                        "num": [], "den": []})
    return res


COLS = ["fcst_flag", "simple_flag", "matched_flag", "area", "volume", "object_type"]
KEY = {"fcst_flag": "fcst", "simple_flag": "simple", "matched_flag": "matched", "area": "area", "volume": "volume", "object_type": "type"}


def table(objs, rng, drop=()):
    cols = [c for c in COLS if c not in drop] + ["object_id", "model"]
    rng.shuffle(cols)
    rows = []
    for k, o in enumerate(objs):
        rows.append([("M" if c == "model" else f"F{k}" if c == "object_id" else o[KEY[c]] if c == "object_type" else float(o[KEY[c]]) if c in ("area", "volume") else int(o[KEY[c]])) for c in cols])
    arr = np.empty((len(objs), len(cols)), dtype=object)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            arr[i, j] = x
    return arr, np.array(cols, dtype=object)


def ev(ns, stats, objs, rng, drop=()):
    arr, cols = table(objs, rng, drop)
    out = [callnum(ns["calculate_" + s["name"]], arr.copy(), cols) for s in stats]
    return {"op": "obj", "stats": stats, "objs": objs, "out": out}


def run(ctx):
    import metcalcpy.agg_stat_bootstrap as b
    ns = vars(b)
    rng = ctx.rng
    stats = stats_of(ns)
    cases = ctx.model("MC_Obj")
    if len(stats) < 150:
        from vlib import MachineryError
        raise MachineryError(f"only {len(stats)} object statistics found")
    events = []
    plain = [s for s in stats if s["dim"] == "any"]
    for objs in cases:
        rng.shuffle(objs)
        events.append(ev(ns, stats if ctx.thorough or rng.random() < .35 else plain, objs, rng))
    for _ in range(ctx.scale(60, 800)):
        n = rng.choice([0, 1, 2, 5, 12])
        objs = [{"fcst": rng.randint(0, 1), "simple": rng.randint(0, 1), "matched": rng.randint(0, 1), "area": str(rng.choice([0, 1, 7, 36, 0.25, 520])),
                 "volume": str(rng.choice([0, 3, 11, 4000])), "type": rng.choice(["2d", "3d", "3d"])} for _ in range(n)]
        dim = rng.choice([None, "2d", "3d"])
        if dim:
            for o in objs:
                o["type"] = dim
        events.append(ev(ns, stats, objs, rng))
    # tables as they come from 3D tracking: objects with a volume and no area column
    st3 = [s for s in stats if s["dim"] == "3d"]
    for _ in range(ctx.scale(25, 200)):
        objs = [{"fcst": rng.randint(0, 1), "simple": rng.randint(0, 1), "matched": rng.randint(0, 1), "area": "0",
                 "volume": str(rng.choice([1, 3, 11, 4000])), "type": "3d"} for _ in range(rng.choice([1, 4, 9]))]
        events.append(ev(ns, st3, objs, rng, drop=("area",)))
    ctx.notes["statistics"] = len(stats)
    ctx.judge("TV_Obj", events, key=lambda e, c: c.split(" ")[0])
