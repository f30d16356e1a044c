"""C06: vector partial-sum scores."""
from fractions import Fraction
import numpy as np
from vlib import callnum, num
from aggrun import run_models

VL = ["vl1l2_bias", "vl1l2_fvar", "vl1l2_ovar", "vl1l2_fspd", "vl1l2_ospd", "vl1l2_speed_err", "vl1l2_msve", "vl1l2_rmsve", "vl1l2_total"]
VA = ["val1l2_anom_corr", "val1l2_total"]
VC = ["vcnt_fbar", "vcnt_obar", "vcnt_fs_rms", "vcnt_os_rms", "vcnt_msve", "vcnt_rmsve", "vcnt_fstdev", "vcnt_ostdev", "vcnt_fdir",
      "vcnt_odir", "vcnt_fbar_speed", "vcnt_obar_speed", "vcnt_vdiff_speed", "vcnt_vdiff_dir", "vcnt_speed_err", "vcnt_speed_abserr",
      "vcnt_dir_err", "vcnt_dir_abser", "vcnt_anom_corr", "vcnt_anom_corr_uncntr"]
BASE = ["ufbar", "vfbar", "uobar", "vobar", "uvfobar", "uvffbar", "uvoobar", "f_speed_bar", "o_speed_bar"]
ANOM = ["ufabar", "vfabar", "uoabar", "voabar", "uvfoabar", "uvffabar", "uvooabar", "fa_speed_bar", "oa_speed_bar"]
FAMS = {"vl1l2": (VL, BASE), "val1l2": (VA, ANOM), "vcnt": (VC, BASE + ANOM)}


def fl(x):
    return float(Fraction(x))


def direct(ag, tab, stats, cols, agg, rng):
    cols = cols + ["total"]
    rng.shuffle(cols)
    w = [fl(x) for x in tab["total"]]
    arr = np.array([[fl(x) * (w[i] if agg and c != "total" else 1) for i, x in enumerate(tab[c])] for c in cols]).T
    names = np.array(cols, dtype=object)
    out = {}
    for s in stats:
        f = getattr(ag, "calculate_" + s)
        out[s] = callnum(f, arr.copy(), names) if s.endswith("total") else callnum(f, arr.copy(), names, *([agg] if agg or rng is None or rng.random() < .5 else []))
    return out


def rand_tab(rng, n):
    t = {c: [] for c in BASE + ANOM + ["total"]}
    q = lambda lo, hi: Fraction(rng.randint(lo * 8, hi * 8), 8)
    trip = [(0, 0), (3, 4), (-4, 3), (0, -5), (5, 12), (-8, 6), (8, -15), (-5, 0), (1, 0), (-12, -5)]
    kind = rng.random()
    for _ in range(n):
        m = rng.choice([1, 2, 3, 4])
        for grp in (BASE, ANOM):
            if kind < .75:
                s = [(rng.choice(trip), rng.choice(trip)) for _ in range(m)]
                if rng.random() < .1:
                    s = [(a, a) for a, _ in s]
                mean = lambda f: Fraction(sum(f(a, b) for a, b in s), m)
                sp = lambda a: int(round((a[0] ** 2 + a[1] ** 2) ** .5))
                v = [mean(lambda a, b: a[0]), mean(lambda a, b: a[1]), mean(lambda a, b: b[0]), mean(lambda a, b: b[1]),
                     mean(lambda a, b: a[0] * b[0] + a[1] * b[1]), mean(lambda a, b: a[0] ** 2 + a[1] ** 2), mean(lambda a, b: b[0] ** 2 + b[1] ** 2),
                     mean(lambda a, b: sp(a)), mean(lambda a, b: sp(b))]
            else:
                v = [q(-6, 6) for _ in range(4)] + [q(-20, 20), q(0, 40), q(0, 40), q(0, 6), q(0, 6)]
            for c, x in zip(grp, v):
                t[c].append(x)
        t["total"].append(m if kind < .75 else rng.choice([1, 2, 5, 50]))
    return t


def ev(fam, cols, tab, out, mode):
    return {"op": "vec", "fam": fam, "mode": mode, "tab": {c: [num(x) for x in tab[c]] for c in cols + ["total"]}, "out": out}


def run(ctx):
    import metcalcpy.agg_stat as ag
    rng = ctx.rng
    events = []
    cases = [{k: [Fraction(str(x)) for x in v] for k, v in c.items()} for c in ctx.model("MC_Vec", consts={"Winds": ctx.scale(4, 5)})]
    for t in cases:
        for fam, (stats, cols) in FAMS.items():
            if fam == "vl1l2" and rng.random() < .5:
                continue
            events.append(ev(fam, cols, t, direct(ag, t, stats, cols, True, rng), "direct"))
            if len(t["total"]) == 1 and rng.random() < .3:
                events.append(ev(fam, cols, t, direct(ag, t, stats, cols, False, rng), "line"))
    for fam, (stats, cols) in FAMS.items():
        for _ in range(ctx.scale(60, 800)):
            t = rand_tab(rng, rng.choice([2, 3, 5]))
            events.append(ev(fam, cols, t, direct(ag, t, stats, cols, True, rng), "direct"))
            t = rand_tab(rng, 1)
            events.append(ev(fam, cols, t, direct(ag, t, stats, cols, False, rng), "line"))
        batch = rng.sample(cases, 12) + [rand_tab(rng, rng.choice([1, 2, 3, 5])) for _ in range(ctx.scale(24, 200))]
        raw = [{c: [float(x) for x in t[c]] for c in cols + ["total"]} for t in batch]
        for t, o in zip(batch, run_models(ctx, fam, raw, stats)):
            events.append(ev(fam, cols, t, o, "run"))
    ctx.judge("TV_Vec", events, key=lambda e, c: f"{e['fam']}:{e['mode']}:{c.split(' ')[0]}")
