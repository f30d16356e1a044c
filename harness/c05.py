"""C05: scalar partial-sum scores."""
from fractions import Fraction
import numpy as np
from vlib import callnum, num
from aggrun import run_models

SL = ["fbar", "obar", "fstdev", "ostdev", "fobar", "ffbar", "oobar", "mae", "mbias", "pr_corr", "fe", "me", "me2", "mse", "msess",
      "rmse", "si", "estdev", "bcmse", "bcrmse", "sl1l2_total"]
SAL = ["anom_corr", "anom_corr_raw", "rmsfa", "rmsoa", "sal1l2_total"]
GRAD = ["fgbar", "ogbar", "mgbar", "egbar", "s1", "s1_og", "fgog_ratio", "grad_total"]
SS = ["fbar", "fstdev", "obar", "ostdev", "pr_corr", "me", "estdev", "mse", "bcmse", "bcrmse", "rmse", "anom_corr", "me2", "msess",
      "spread", "total"]
COLS = {"sl1l2": ["fbar", "obar", "fobar", "ffbar", "oobar", "mae"], "sal1l2": ["fabar", "oabar", "foabar", "ffabar", "ooabar"],
        "grad": ["fgbar", "ogbar", "mgbar", "egbar"], "ssvar": ["fbar", "obar", "fobar", "ffbar", "oobar", "var_mean"]}
STATS = {"sl1l2": SL, "sal1l2": SAL, "grad": GRAD, "ssvar": SS}


def fl(x):
    return float(Fraction(x))


def direct(mod, fam, tab, stats, agg, rng=None):
    """call the score functions as the aggregation does, on pre-multiplied sums (agg) or one plain line"""
    pre = "ssvar_" if fam == "ssvar" else ""
    cols = COLS[fam] + ["total"] + (["total_orig"] if fam == "ssvar" else [])
    if rng:
        rng.shuffle(cols)
    w = [fl(x) for x in tab["total"]]
    arr = np.array([[fl(x) * (w[i] if agg and c not in ("total", "total_orig") else 1) for i, x in enumerate(tab[c])] for c in cols]).T
    names = np.array(cols, dtype=object)
    out = {}
    for s in stats:
        f = getattr(mod, "calculate_" + pre + s)
        out[s] = callnum(f, arr.copy(), names) if s.endswith("total") else callnum(f, arr.copy(), names, *([agg] if agg or rng is None or rng.random() < .5 else []))
    return out


def rand_tab(rng, fam, n):
    """n lines of partial sums of random samples, or of arbitrary (possibly inconsistent) sums"""
    t = {c: [] for c in COLS[fam] + ["total"]}
    kind = rng.random()
    for _ in range(n):
        m = rng.choice([1, 2, 3, 5, 8, 20, 100])
        t["total"].append(m)
        q = lambda lo, hi: Fraction(rng.randint(lo * 8, hi * 8), 8)
        if fam == "grad":
            z = rng.random() < .1
            for c in COLS[fam]:
                t[c].append(Fraction(0) if z else q(0, 9))
            continue
        if kind < .7:
            k = min(m, 6)
            base = q(-5, 5)
            s = [(base + q(-2, 2), base + q(-2, 2)) for _ in range(k)]
            if rng.random() < .1:
                s = [s[0]] * k
            t["total"][-1] = m = k
            f, o = [x for x, _ in s], [y for _, y in s]
            v = {"f": sum(f) / k, "o": sum(o) / k, "fo": sum(x * y for x, y in s) / k, "ff": sum(x * x for x in f) / k, "oo": sum(y * y for y in o) / k}
            mae = sum(abs(x - y) for x, y in s) / k
        else:
            v = {"f": q(-3, 3), "o": q(-3, 3), "fo": q(-9, 9), "ff": q(0, 12), "oo": q(0, 12)}
            mae = q(0, 5)
            if rng.random() < .1:
                v["o"] = Fraction(0)
            if rng.random() < .05:
                v["ff"] = v["oo"] = Fraction(0)
        suf = "abar" if fam == "sal1l2" else "bar"
        for a in ("f", "o", "fo", "ff", "oo"):
            t[a + suf].append(v[a])
        if "mae" in t:
            t["mae"].append(mae)
        if "var_mean" in t:
            t["var_mean"].append(q(0, 6))
    if fam == "ssvar":
        t["total_orig"] = [rng.randint(1, 500) for _ in range(n)]
    return t


def ev(fam, tab, out, mode):
    return {"op": "psum", "fam": fam, "mode": mode, "tab": {c: [num(x) for x in v] for c, v in tab.items()}, "out": out}


def run(ctx):
    import metcalcpy.agg_stat as ag         # the score functions as the aggregation sees them
    sl = ag
    mods = {f: ag for f in COLS}
    rng = ctx.rng
    events = []
    cases = ctx.model("MC_PSums", consts={"Vals": ctx.scale("{0, 2}", "{0, 1, 3}")})
    tabs = []
    for c in cases:
        t = {k: [Fraction(str(x)) for x in v] for k, v in c.items()}
        tabs.append(t)
        events.append(ev("sl1l2", t, direct(sl, "sl1l2", t, [s for s in SL if s != "sl1l2_total"] + ["sl1l2_total"], True, rng), "direct"))
        if len(t["total"]) == 1:
            events.append(ev("sl1l2", t, direct(sl, "sl1l2", t, SL, False), "line"))
    sample = rng.sample(tabs, ctx.scale(36, 300))
    for t, o in zip(sample, run_models(ctx, "sl1l2", [dict({k: list(map(float, v)) for k, v in t.items()}) for t in sample], SL)):
        events.append(ev("sl1l2", t, o, "run"))
    for fam in COLS:
        k = ctx.scale(80, 1000)
        for _ in range(k):
            t = rand_tab(rng, fam, rng.choice([1, 2, 3, 7]))
            events.append(ev(fam, t, direct(mods[fam], fam, t, STATS[fam], True, rng), "direct"))
            t = rand_tab(rng, fam, 1)
            events.append(ev(fam, t, direct(mods[fam], fam, t, STATS[fam], False, rng), "line"))
        batch = [rand_tab(rng, fam, rng.choice([1, 2, 3, 5])) for _ in range(ctx.scale(36, 300))]
        raw = []
        for t in batch:
            r = {c: [float(x) for x in v] for c, v in t.items()}
            r["total"] = [int(x) for x in t["total"]]
            if fam == "ssvar":
                r["bin_n"], r["total"] = r["total"], r.pop("total_orig")
            raw.append(r)
        for t, o in zip(batch, run_models(ctx, fam, raw, STATS[fam], prefix="SSVAR_" if fam == "ssvar" else "")):
            events.append(ev(fam, t, o, "run"))
    ctx.judge("TV_PSums", events, key=lambda e, c: f"{e['fam']}:{e['mode']}:{c.split(' ')[0]}")
