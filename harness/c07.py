"""C07: ensemble, ranked-probability and neighborhood-continuous scores."""
from fractions import Fraction
import numpy as np
from vlib import callnum, num
from aggrun import run_models

ECNT = ["ecnt_crps", "ecnt_crpscl", "ecnt_crpss", "ecnt_crps_emp", "ecnt_crps_emp_fair", "ecnt_spread_md", "ecnt_crpscl_emp",
        "ecnt_crpss_emp", "ecnt_ign", "ecnt_me", "ecnt_mae", "ecnt_mae_oerr", "ecnt_rmse", "ecnt_spread", "ecnt_me_oerr",
        "ecnt_rmse_oerr", "ecnt_spread_oerr", "ecnt_spread_plus_oerr", "ecnt_n_ge_obs", "ecnt_n_lt_obs", "ecnt_me_ge_obs",
        "ecnt_me_lt_obs", "ecnt_bias_ratio", "ecnt_total"]
RPS = ["rps", "rps_comp", "rpss", "rps_total"]
NBR = ["nbr_fbs", "nbr_fss", "nbr_afss", "nbr_ufss", "nbr_f_rate", "nbr_o_rate", "nbr_cnt_total"]
COLS = {"ecnt": ["crps", "crpscl", "crps_emp", "crps_emp_fair", "spread_md", "crpscl_emp", "ign", "me", "mae", "mae_oerr", "me_oerr",
                 "rmse", "spread", "rmse_oerr", "spread_oerr", "spread_plus_oerr", "n_ge_obs", "n_lt_obs", "me_ge_obs", "me_lt_obs"],
        "rps": ["rps", "rps_comp", "rpss"], "nbr_cnt": ["fbs", "fss", "f_rate", "o_rate"]}
STATS = {"ecnt": ECNT, "rps": RPS, "nbr_cnt": NBR}


def rand_tab(rng, fam, n):
    q = lambda lo, hi: Fraction(rng.randint(lo * 16, hi * 16), 16)
    t = {c: [] for c in COLS[fam] + ["total"]}
    z = rng.random() < .1
    for _ in range(n):
        t["total"].append(rng.choice([1, 2, 3, 10, 77]))
        for c in COLS[fam]:
            if c.startswith("n_"):
                x = Fraction(rng.choice([0, 1, 2, 5, 40]))
            elif c in ("rpss", "fss"):
                x = rng.choice([Fraction(k, 8) for k in (-16, -8, -1, 0, 1, 3, 5, 7)])
            elif c in ("f_rate", "o_rate", "fbs"):
                x = Fraction(rng.randint(0, 16), 16)
            elif c in ("me", "me_oerr", "me_ge_obs", "me_lt_obs"):
                x = q(-4, 4)
            else:
                x = q(0, 6)
            t[c].append(Fraction(0) if z and rng.random() < .6 else x)
    return t


def direct(ag, tab, fam, agg_cols, stats, rng):
    """the functions on prepared columns: sums already multiplied by their weights"""
    f = {c: [float(x) for x in v] for c, v in tab.items()}
    w = f["total"]
    d = {c: [x * y for x, y in zip(f[c], w)] for c in agg_cols}
    d["total"] = w
    if fam == "ecnt":
        for src, dst in (("rmse", "mse"), ("rmse_oerr", "mse_oerr"), ("spread", "variance"), ("spread_oerr", "variance_oerr"), ("spread_plus_oerr", "variance_plus_oerr")):
            d[dst] = [x * x * y for x, y in zip(f[src], w)]
        for c in ("n_ge_obs", "n_lt_obs"):
            d[c] = f[c]
            d["me" + c[1:]] = [x * y for x, y in zip(f["me" + c[1:]], f[c])]
    cols = list(d)
    rng.shuffle(cols)
    arr = np.array([d[c] for c in cols]).T
    names = np.array(cols, dtype=object)
    return {s: callnum(getattr(ag, "calculate_" + s), arr.copy(), names, *([] if s.endswith("total") else [True])) for s in stats}


def ev(fam, tab, out, mode):
    return {"op": "ens", "fam": fam, "mode": mode, "tab": {c: [num(x) for x in tab[c]] for c in COLS[fam] + ["total"]}, "out": out}


def run(ctx):
    import metcalcpy.agg_stat as ag
    rng = ctx.rng
    events = []
    cases = [{k: [Fraction(str(x)) for x in v] for k, v in c.items()} for c in ctx.model("MC_Ens")]
    for t in cases if ctx.thorough else rng.sample(cases, 400):
        events.append(ev("ecnt", t, direct(ag, t, "ecnt", COLS["ecnt"], ECNT, rng), "direct"))
    for fam in COLS:
        batch = rng.sample(cases, ctx.scale(24, 200)) + [rand_tab(rng, fam, rng.choice([1, 1, 2, 3, 6])) for _ in range(ctx.scale(48, 400))]
        raw = [{c: [float(x) for x in t[c]] for c in COLS[fam] + ["total"]} for t in batch]
        for t, o in zip(batch, run_models(ctx, fam, raw, STATS[fam])):
            events.append(ev(fam, t, o, "run"))
        if fam == "ecnt":
            for _ in range(ctx.scale(60, 600)):
                t = rand_tab(rng, fam, rng.choice([1, 2, 4]))
                events.append(ev(fam, t, direct(ag, t, fam, COLS[fam], ECNT, rng), "direct"))
    ctx.judge("TV_Ens", events, key=lambda e, c: f"{e['fam']}:{e['mode']}:{c.split(' ')[0]}")
