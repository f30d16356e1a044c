"""C29: enumeration of value combinations and the helpers on values."""
import numpy as np
from vlib import num, call


def typed(v):
    return ("bool:" if isinstance(v, bool) else "none:" if v is None else type(v).__name__ + ":") + str(v)


def combos_event(rng, lists, start=0):
    from metcalcpy.util.utils import create_permutations_mv
    kind = rng.choice(["list", "dict"])
    if kind == "dict":
        if start:
            start = 0
        arg = {f"k{i}": list(l) for i, l in enumerate(lists)}
    else:
        arg = [list(l) for l in lists]
    # the values can be of any kind, also those that count as false
    names = sorted({v for l in lists for v in l})
    rng.shuffle(names)
    kinds = {0: lambda k: k, 1: lambda k: ["", "0", "x"][k] if k < 3 else str(k), 2: lambda k: k * .5}
    kind_of = kinds.get(rng.choice([0, 1, 2, 3, 3, 3]))
    there = {v: kind_of(k) if kind_of else v for k, v in enumerate(names)}
    back = {v: k for k, v in there.items()}
    arg = {k: [there[v] for v in l] for k, l in arg.items()} if kind == "dict" else [[there[v] for v in l] for l in arg]
    out, err = call(create_permutations_mv, arg, start)
    if not err:
        out = [[back.get(v, str(v)) for v in x] if isinstance(x, list) else back.get(x, str(x)) for x in out]
    flat = not err and any(not isinstance(x, list) for x in out)
    return {"op": "combos", "kind": kind, "lists": lists, "from": start, "flat": bool(flat), "err": err or "",
            "out": [] if err else [x if isinstance(x, list) else [x] for x in out]}


def product_event(lists):
    from metcalcpy.util.utils import create_permutations
    out, err = call(create_permutations, [list(l) for l in lists])
    return {"op": "product", "lists": lists, "err": err or "", "out": [] if err else [list(x) for x in out]}


def text_events(t, kind="str", raw=None):
    from metcalcpy.util.utils import is_string_integer, is_string_strictly_float
    v = t if raw is None and kind == "str" else raw
    for op, fn in (("int", is_string_integer), ("float", is_string_strictly_float)):
        out, err = call(fn, v)
        yield {"op": op, "kind": kind, "text": t, "err": err or "", "out": bool(out)}


def table_events(rng):
    from metcalcpy.util import utils as u
    cols = rng.sample(["model", "total", "fbar", "fcst_lead", "object_type"], rng.randint(2, 5))
    rows = []
    for _ in range(rng.choice([1, 2, 3, 6])):
        r = {}
        for c in cols:
            if c == "model":
                r[c] = rng.choice(["A", "B"])
            elif c == "object_type":
                r[c] = rng.choice(["2d", "3d"])
            elif c == "fcst_lead":
                r[c] = rng.choice([120000, 240000])
            else:
                r[c] = rng.choice([None, rng.randint(0, 9), rng.randint(-90, 90) / 8, rng.randint(-90, 90) / 8])
        rows.append(r)
    if rng.random() < .1:
        rows = [dict(r, **{c: None for c in cols if c in ("total", "fbar")}) for r in rows]
    a = np.array([[r[c] for c in cols] for r in rows], dtype=object)
    names = np.array(cols)
    enc = [{c: num(r[c]) for c in cols} for r in rows]
    numeric = [c for c in cols if c in ("total", "fbar", "fcst_lead")]
    for c in numeric[:2] + (["absent"] if rng.random() < .3 else []):
        drop = rng.random() < .6
        kw = {} if drop and rng.random() < .5 else {"rm_none": drop}
        out, err = call(u.sum_column_data_by_name, a, names, c, **kw)
        yield {"op": "sum", "cols": cols, "rows": enc, "column": c, "drop": drop, "err": err or "", "out": "" if err else num(out)}
    f = {c: rng.choice(rows)[c] for c in rng.sample(cols, rng.randint(1, 2)) if c in ("model", "object_type", "fcst_lead")}
    if rng.random() < .2:
        f["absent"] = "x"
    if f:
        out, err = call(u.nrow_column_data_by_name_value, a, names, f)
        yield {"op": "rows", "cols": cols, "rows": enc, "filter": {k: num(v) for k, v in f.items()}, "err": err or "", "out": -1 if err else int(out)}


def value_events(rng):
    from metcalcpy.util import utils as u
    pool = ["a", "b", "c", "d", "e"]
    a, b = [rng.choice(pool) for _ in range(rng.randint(0, 5))], [rng.choice(pool) for _ in range(rng.randint(0, 5))]
    none = rng.random() < .1
    out, err = call(u.intersection, None if none and rng.random() < .5 else a, None if none else b)
    yield {"op": "intersection", "a": a, "b": b, "none": none, "err": err or "", "out": ["none"] if out is None else list(out)}
    out, err = call(u.unique, a if a or rng.random() < .5 else None)
    yield {"op": "unique", "a": a, "err": err or "", "out": ["none"] if out is None else list(out)}
    v = rng.choice(["True", "False", "true", "FALSE", "yes", "", "1", True, False, None, 1, 0])
    out, err = call(u.parse_bool, v)
    yield {"op": "bool", "text": typed(v), "err": err or "", "out": typed(out)}
    comp = ["GFS", "DIFF(a-b)", "DIFF (a-b)", "DIFF", "SS(a and b)", "RATIO(a/b)", "x DIFF(a-b)", "SINGLE(a-b)", "ETB(a and b)", "DIFF_SIG(a-b)", "SSX(", "diff(a-b)", 12, 0.5]
    p = [rng.choice(comp) for _ in range(rng.randint(0, 3))]
    out, err = call(u.is_derived_point, tuple(p) if rng.random() < .5 else p)
    yield {"op": "derived", "point": [str(x) for x in p], "err": err or "", "out": bool(out)}
    d = rng.choice([0, 1, 2, 5, 7, 7, -1, -2])
    r = rng.random()
    if r < .05:
        x = None
    elif r < .35:
        x = (rng.randint(-99999, 99999) + .5) / 10 ** d
    elif r < .5:
        x = rng.randint(-999, 999) / rng.choice([2, 4, 8])
    elif r < .6:
        x = rng.randint(-10 ** 6, 10 ** 6)
    else:
        x = rng.uniform(-1, 1) * 10 ** rng.randint(-6, 5)
    kw = {} if d == 0 and rng.random() < .5 else {"decimals": d}
    out, err = call(u.round_half_up, x, **kw)
    yield {"op": "round", "x": "none" if x is None else num(Exact(x)), "d": d, "err": err or "", "out": num(out)}


def Exact(x):
    from fractions import Fraction
    return Fraction(x)


def run(ctx):
    rng = ctx.rng
    ev = []
    cases = ctx.model("MC_Helpers", consts={"N": ctx.scale(4, 5), "L": ctx.scale(4, 5)}, timeout=3000)
    lists = [c["lists"] for c in cases if c["op"] == "lists"]
    texts = [c["text"] for c in cases if c["op"] == "text"]
    for ls in rng.sample(lists, min(len(lists), ctx.scale(600, 4000))):
        ev.append(product_event(ls))
        ev.append(combos_event(rng, ls, rng.randrange(len(ls)) if ls and rng.random() < .3 else 0))
    for t in rng.sample(texts, min(len(texts), ctx.scale(1200, 8000))):
        ev += text_events(t)
    for t in ["abc", "1.5.2", "12a", "-12", "-1.25", "a.b", "..", "-.", "1e5", "1.5e3", "nan", "inf", "0x1", "007", "-0", "00.10"]:
        ev += text_events(t)
    for raw, kind in ((None, "none"), (3, "int"), (-12, "int"), (0.5, "other"), (2.5, "other"), ([], "other")):
        ev += text_events(str(raw), kind, raw)
    for _ in range(ctx.scale(500, 5000)):
        ev += value_events(rng)
        ev += table_events(rng)
    for _ in range(ctx.scale(100, 1000)):
        ls = [[f"v{i}{j}" for j in range(rng.choice([0, 1, 1, 2, 3]))] for i in range(rng.randint(0, 6))]
        ev.append(combos_event(rng, ls))
        ev.append(product_event(ls))
    ctx.judge("TV_Helpers", ev)
