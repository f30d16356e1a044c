"""C36: correlation of paired series and what is derived from the coefficient."""
import math, warnings
from fractions import Fraction
import numpy as np
from vlib import num, call

METHODS = ["pearson", "spearman", "kendall", "bicor", "percbend"]
F = lambda x: float("nan") if x in ("none", "nan") else float(Fraction(x))


def quiet(fn):
    def go():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn()
    return call(go)


def corr_event(rng, x, y, method):
    """x, y: texts of numbers or 'nan'"""
    import pandas as pd
    from metcalcpy.util.correlation import corr
    tail = rng.choice(["two-sided", "two-sided", "one-sided"])
    form = rng.choice([list, np.array, pd.Series])
    kw = {}
    if method != "pearson" or rng.random() < .5:
        kw["method"] = method
    if tail != "two-sided" or rng.random() < .5:
        kw["tail"] = tail
    c, beta = "9", "1/5"
    if method == "bicor" and rng.random() < .4:
        c = rng.choice(["2", "3", "5", "15/2"])
        kw["c"] = float(Fraction(c))
    if method == "percbend" and rng.random() < .4:
        beta = rng.choice(["1/10", "1/4", "3/8", "1/2"])
        kw["beta"] = float(Fraction(beta))
    df, err = quiet(lambda: corr(form([F(v) for v in x]), form([F(v) for v in y]), **kw))
    e = {"op": "shepherd" if method == "shepherd" else "corr", "method": method, "tail": tail, "c": c, "beta": beta, "x": x, "y": y, "err": err or "", "out": {}}
    if not err:
        if len(df) != 1 or list(df.index) != [method]:
            e["err"] = "rows " + str(list(df.index))
            return e
        r = df.iloc[0]
        ci = r["CI95%"]
        ci = [num(v) for v in ci] if np.ndim(ci) == 1 and len(ci) == 2 else ["nan", "nan"]
        bf = r["BF10"] if "BF10" in df else "nan"
        if method == "pearson" and "BF10" not in df:
            bf = "absent"
        e["out"] = {"outliers": num(r["outliers"]) if "outliers" in df else "absent", "n": int(r["n"]), "r": num(r["r"]), "r2": num(r["r2"]), "adj_r2": num(r["adj_r2"]), "p": num(r["p-val"]), "ci": ci,
                    "power": num(r["power"]), "bf": num(float(bf)) if isinstance(bf, str) and bf[0] in "0123456789" else num(bf)}
    return e


def series(rng, n):
    k = rng.random()
    if k < .15:
        return [str(rng.choice([0, 1, 2])) for _ in range(n)]
    if k < .2:
        return ["4"] * n
    s = [Fraction(rng.randint(-200, 200), 8) for _ in range(n)]
    if rng.random() < .25:
        s[rng.randrange(n)] *= 40
    return [num(v) for v in s]


def ring(rng):
    """pairs around an ellipse, none of them an outlier of the others, and sometimes one pair far away"""
    n = rng.randint(14, 24)
    a, b, c, t0 = rng.uniform(1, 4), rng.uniform(-3, 3), rng.uniform(1, 3), rng.random()
    p = []
    for k in range(n):
        t, w = 2 * math.pi * (k + t0) / n, rng.uniform(.9, 1.05)
        p.append((a * w * math.cos(t), b * w * math.cos(t) + c * w * math.sin(t)))
    if rng.random() < .6:
        p.append(rng.choice([(500, 3), (-500, 800), (2, -900), (700, 1)]))
    if rng.random() < .3:
        p.append((float("nan"), 1.5))
    rng.shuffle(p)
    return [num(round(v[0], 4)) for v in p], [num(round(v[1], 4)) for v in p]


def power_event(rng):
    from metcalcpy.util.correlation import power_corr
    solve = rng.choice(["power", "power", "n", "r", "alpha"])
    two = rng.random() < .6 or solve == "alpha"     # one-sided: not every power has a level
    v = {"r": rng.choice([.1, .3, .5, .55, .7, .9]) * rng.choice([1, 1, -1]), "n": rng.choice([5, 6, 10, 20, 50, 200]),
         "power": rng.choice([.3, .5, .8, .9]), "alpha": rng.choice([.05, .05, .01, .1])}
    if solve == "r":
        v["n"] = rng.choice([10, 20, 50, 200])
    if solve == "n":
        v["power"] = rng.choice([.8, .9])
        v["r"] = rng.choice([.1, .3, .5, .6])
    if solve == "alpha":
        v["n"] = rng.choice([10, 20, 30])
        v["power"] = rng.choice([.5, .8, .9])
        v["r"] = rng.choice([.3, .5, -.5])
    a = dict(v)
    a[solve] = None
    if a["alpha"] == .05 and rng.random() < .5:
        del a["alpha"]
    if not two or rng.random() < .5:
        a["tail"] = "two-sided" if two else "one-sided"
    out, err = quiet(lambda: power_corr(**a))
    return {"op": "power", "solve": solve, "two": two, "err": err or "", "out": num(out), **{k: num(v[k]) for k in v}}


def interval_event(rng):
    from metcalcpy.util.correlation import compute_esci
    kind = rng.choice(["r", "r", "d"])
    conf, dec = rng.choice([.9, .95, .95, .99]), rng.choice([1, 2, 2, 4, 7])
    nx, ny, paired = rng.choice([4, 7, 12, 60]), rng.choice([1, 4, 9, 50]), rng.random() < .3
    stat = rng.randint(-95, 95) / 100 if kind == "r" else rng.randint(-300, 300) / 100
    name = rng.choice(["r", "pearson", "spearman", "R"]) if kind == "r" else rng.choice(["cohen", "d", "g", "hedges"])
    kw = {"stat": stat, "nx": nx, "ny": ny, "paired": paired}
    if name != "cohen" or rng.random() < .5:
        kw["eftype"] = name
    if conf != .95 or rng.random() < .5:
        kw["confidence"] = conf
    if dec != 2 or rng.random() < .5:
        kw["decimals"] = dec
    out, err = quiet(lambda: compute_esci(**kw))
    if not err and np.shape(out) != (2,):
        err = "shape"
    return {"op": "interval", "kind": kind, "stat": num(stat), "nx": nx, "ny": ny, "one": paired or ny == 1, "conf": num(conf), "dec": dec,
            "err": err or "", "out": [] if err else [num(v) for v in out]}


def complete_event(rng):
    from metcalcpy.util.correlation import remove_na
    paired, two = rng.random() < .6, rng.random() < .5
    rate = rng.choice([0, .2, .5])
    val = lambda: "nan" if rng.random() < rate else num(rng.randint(-9, 9) / 2)
    axis = rng.choice(["rows", "columns"])
    kw = {"paired": paired} if paired or rng.random() < .5 else {}
    if axis != "rows" or rng.random() < .5:
        kw["axis"] = axis
    if two:
        n, m = rng.randint(1, 5), rng.randint(2, 4)
        k, l = (n, m) if paired or rng.random() < .5 else (rng.randint(1, 5), rng.randint(2, 4))
        x, y = [[val() for _ in range(m)] for _ in range(n)], [[val() for _ in range(l)] for _ in range(k)]
        out, err = quiet(lambda: remove_na(np.array([[F(v) for v in r] for r in x]), np.array([[F(v) for v in r] for r in y]), **kw))
        txt = lambda a: [[num(v) for v in r] for r in a]
    else:
        n = rng.randint(2, 7)
        k = n if paired else rng.randint(2, 7)
        x, y = [val() for _ in range(n)], [val() for _ in range(k)]
        form = rng.choice([list, np.array])
        out, err = quiet(lambda: remove_na(form([F(v) for v in x]), form([F(v) for v in y]), **kw))
        txt = lambda a: [num(v) for v in a]
    ox, oy = out if not err else ([], [])
    return {"op": "complete2" if two else "complete1", "paired": paired, "rows": axis == "rows", "x": x, "y": y, "err": err or "",
            "ox": txt(ox), "oy": txt(oy)}


def run(ctx):
    rng = ctx.rng
    np.random.seed(rng.randrange(2 ** 31))
    ev = []
    cases = ctx.model("MC_Corr", consts={"L": ctx.scale(5, 6)})
    for c in rng.sample(cases, min(len(cases), ctx.scale(500, 4000))):
        o = list(range(len(c["x"])))
        rng.shuffle(o)
        ev.append(corr_event(rng, [c["x"][i] for i in o], [c["y"][i] for i in o], rng.choice(METHODS)))
    for _ in range(ctx.scale(600, 6000)):
        n = rng.choice([5, 6, 7, 10, 11, 15, 30])
        x = series(rng, n)
        if rng.random() < .5:
            s = rng.choice([1, -1, 2])
            y = [num(s * Fraction(v) + Fraction(rng.randint(-80, 80), 8)) for v in x]
        else:
            y = series(rng, n)
        if n > 6 and rng.random() < .4:
            for s in (x, y):
                for i in rng.sample(range(n), rng.randint(0, 1)):
                    s[i] = "nan"
        ev.append(corr_event(rng, x, y, rng.choice(METHODS + ["pearson"])))
    for _ in range(ctx.scale(250, 2500)):
        ev += [power_event(rng), interval_event(rng), complete_event(rng)]
    for _ in range(ctx.scale(40, 400)):
        ev.append(corr_event(rng, *ring(rng), "shepherd"))
    ctx.judge("TV_Corr", ev)
