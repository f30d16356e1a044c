"""C21: scorecards."""
import itertools, os
import pandas as pd
from aggrun import cell
from vlib import num, call

DAYS = [1, 3, 10, 19, 20, 25, 39, 40, 60, 79, 80, 120]
STATS = ["RMSE", "ME", "BIAS_RATIO", "RMSVE", "MAE", "BCMSE", "CSI", "FBIAS", "ANOM_CORR", "FBAR", "ECNT_RMSE", "FOO", "ME2", "ACC"]


def val(x):
    return {"label": x, "members": [x]}


def grp(xs):
    return {"label": ":".join(xs), "members": list(xs)}


def comp(dims, vals, stat, order):
    words = [vals[k]["label"] for k in order] + ["HGT", stat]
    return {"vals": vals, "stat": stat, "text": " ".join(words)}


def run_card(ctx, ax, rows, rule, ndays, times=1):
    from metcalcpy.scorecard import Scorecard
    fi, fo = os.path.join(ctx.tmp, "card.data"), os.path.join(ctx.tmp, "card.out")
    if os.path.exists(fo):
        os.unlink(fo)
    extra = {"fcst_thresh": "NA", "stat_ncl": "NA", "stat_bcu": "NA"}
    df = pd.DataFrame([dict(r["lab"], stat_value=r["value"], **extra) for r in rows])
    df.to_csv(fi, sep="\t", index=False, na_rep="NA")
    dims, ns = ax["dims"], ax["series"]
    p = {"append_to_file": "True" if times > 1 else ctx.rng.choice([False, "False"]),
         "derived_series_1": [[d["first"]["text"], d["second"]["text"], d["op"]] for d in ax["derived"]],
         "equalize_by_indep": True, "event_equal": False, "fcst_var_val_1": {"HGT": ax["stats"]}, "fix_val_list_eq": [],
         "fixed_vars_vals_input": {}, "indy_plot_val": [], "indy_vals": [v["label"] for v in dims[ns]["vals"]] if len(dims) > ns else [],
         "indy_var": dims[ns]["field"] if len(dims) > ns else "vx_mask", "line_type": "sl1l2", "list_stat_1": list(ax["stats"]),
         "ndays": ndays, "series_val_1": {d["field"]: [v["label"] for v in d["vals"]] for d in dims[:ns]},
         "stat_flag": rule, "sum_stat_input": fi, "sum_stat_output": fo}

    def go():
        for k in range(times):
            if k == 0 and times > 1:
                Scorecard(dict(p, append_to_file=False)).calculate_scorecard_data()
            else:
                Scorecard(p).calculate_scorecard_data()
    _, err = call(go)
    lines = []
    if not err and os.path.exists(fo):
        out = pd.read_csv(fo, sep="\t", dtype=str, keep_default_na=False)
        for r in out.to_dict("records"):
            lines.append({"lab": {k: v for k, v in r.items() if k != "stat_value"}, "value": cell(r["stat_value"])})
    return {"op": "run", "ax": ax, "rows": rows, "rule": rule, "ndays": ndays, "times": times, "err": err or "", "lines": lines}


def axis(rng, dims, ns, stats, ops, differ="model"):
    """derived series over pairs of values of one dimension"""
    ax = {"dims": dims, "series": ns, "stats": stats, "var": "", "derived": []}
    k = [d["field"] for d in dims].index(differ)
    order = list(range(ns))
    if rng.random() < .5:
        rng.shuffle(order)
    others = [d["vals"] if j != k else [None] for j, d in enumerate(dims[:ns])]
    for op in ops:
        base = [rng.choice(o) for o in others]
        x, y = rng.sample(dims[k]["vals"], 2)
        st = rng.choice(stats)
        pick = lambda z: [z if j == k else b for j, b in enumerate(base)]
        d = {"first": comp(dims, pick(x), st, order), "second": comp(dims, pick(y), st, order), "op": op}
        if d not in ax["derived"]:
            ax["derived"].append(d)
    return ax


def model_cases(ctx):
    rng = ctx.rng
    cases = ctx.model("MC_Scorecard", consts={"N": 3})
    cases = rng.sample(cases, ctx.scale(350, len(cases)))
    for c in cases:
        lead = {"field": "fcst_lead", "vals": [val("120000")]}
        model = {"field": "model", "vals": [val("A"), val("B")]}
        st = rng.choice(STATS)
        ax = axis(rng, [lead, model, {"field": "vx_mask", "vals": [val("EAST")]}], 2, [st], [rng.choice(["DIFF", "DIFF_SIG", "DIFF_SIG", "SINGLE"])])
        rows = [{"lab": lab("120000", m, "EAST", t, st), "value": x} for m in "AB" for t, x in enumerate(c[m.lower()]) if x != ""]
        if not rows:
            continue
        rng.shuffle(rows)
        yield run_card(ctx, ax, rows, rng.choice(["NCAR", "EMC"]), rng.choice(DAYS))


def lab(lead, m, mask, t, st, lev="P500"):
    return {"fcst_lead": lead, "fcst_lev": lev, "model": m, "vx_mask": mask, "fcst_valid_beg": f"2020-01-{t // 2 + 1:02d} {12 * (t % 2):02d}:00:00",
            "stat_name": st, "fcst_var": "HGT"}


def random_cases(ctx, n):
    rng = ctx.rng
    for _ in range(n):
        leads = ["120000", "240000", "360000"]
        lead = {"field": "fcst_lead", "vals": [val(x) for x in rng.sample(leads, rng.choice([1, 2]))]}
        if rng.random() < .4:
            lead["vals"].append(grp(rng.sample(leads, 2)))
        models = rng.sample(["M1", "M2", "M3"], rng.choice([2, 2, 3]))
        dims = [lead, {"field": "model", "vals": [val(m) for m in models]}]
        if rng.random() < .5:
            dims.insert(1, {"field": "fcst_lev", "vals": [val(x) for x in rng.sample(["P500", "P850"], rng.choice([1, 2]))]})
        if rng.random() < .3:
            rng.shuffle(dims)
        ns = len(dims)
        if rng.random() < .85:
            masks = [val(x) for x in rng.sample(["EAST", "WEST", "G2/TRO"], rng.choice([1, 2, 3]))]
            if rng.random() < .15:
                masks = [grp(["EAST", "WEST"])]
            dims.append({"field": "vx_mask", "vals": masks})
        stats = rng.sample(STATS, rng.choice([1, 1, 1, 2]))
        ops = [rng.choice(["DIFF", "DIFF_SIG", "DIFF_SIG", "SINGLE"]) for _ in range(rng.choice([1, 2, 3]))]
        ax = axis(rng, dims, ns, stats, ops)
        T = rng.choice([2, 3, 5, 8, 20])
        shift = {m: rng.choice([0, 0, 1, 2, 5, -1, -4, 60]) for m in models}
        spread = rng.choice([0, 2, 8, 40, 400])
        q = rng.choice([1, 4, 4, 8])
        levs = ["P500", "P850"] if any(d["field"] == "fcst_lev" for d in dims) else ["P500"]
        ms = ["EAST", "WEST", "G2/TRO"] if len(dims) > ns else ["EAST"]
        rows = []
        gap = rng.choice([0, 0, 0, .1, .4])
        for l, m, k, st, lv in itertools.product(leads, models, ms, stats, levs):
            for t in range(T):
                if rng.random() < gap:
                    continue
                base = (t * 7) % 5
                rows.append({"lab": lab(l, m, k, t, st, lv), "value": num((base + 4 * shift[m] + rng.randint(-spread, spread)) / (4 * q))})
        if rng.random() < .12 and rows:       # the same case twice
            for r in rng.sample(rows, max(1, len(rows) // 8)):
                rows.append({"lab": dict(r["lab"]), "value": "1.5"})
        if not rows:
            continue
        if rng.random() < .8:
            rng.shuffle(rows)
        yield run_card(ctx, ax, rows, rng.choice(["NCAR", "EMC"]), rng.choice(DAYS), times=rng.choice([1, 1, 1, 1, 2]))


def tuned_emc(ctx, n):
    """two models whose scaled difference sits near the levels of the EMC rule"""
    rng = ctx.rng
    for _ in range(n):
        nd = rng.choice(DAYS)
        T = rng.choice([3, 5, 10, 20])
        crit = {0: (2.228, 3.169, 4.587), 1: (2.042, 2.75, 3.646), 2: (2.0, 2.66, 3.46), 3: (1.96, 2.576, 3.291)}[(nd >= 20) + (nd >= 40) + (nd >= 80)]
        target = rng.choice([1, crit[1] / crit[0], crit[2] / crit[0], 100 * crit[2] / crit[0]]) * rng.choice([1, -1])
        target *= rng.choice([1, 1, .99, 1.01, .999, 1.001, .8, 1.3])
        noise = [rng.choice([-1, 1]) * rng.randint(1, 9) for _ in range(T)]
        noise = [x - sum(noise) / T for x in noise]
        # d = delta + s * noise; choose s so that delta / halfwidth is the target
        delta = rng.choice([1, 2, 5])
        mean2 = sum(x * x for x in noise) / T
        if not mean2:
            continue
        m = delta * T / nd
        # var = (sum (delta - m + s noise)^2) / nd = ((delta-m)^2 T + s^2 mean2 T) / nd
        want = (delta / abs(target) * (T - 1) ** .5 / 1.96) ** 2
        s2 = (want * nd / T - (delta - m) ** 2) / mean2
        if s2 <= 0:
            continue
        s = s2 ** .5
        base = [rng.randint(0, 40) / 4 for _ in range(T)]
        hi = [round(b + delta + s * x, 6) for b, x in zip(base, noise)]
        st = rng.choice(["RMSE", "ANOM_CORR", "ME", "RMSVE", "BIAS_RATIO", "CSI"])
        a, b = (base, hi) if target > 0 else (hi, base)
        if rng.random() < .3:
            a, b = b, a
        lead = {"field": "fcst_lead", "vals": [val("120000")]}
        model = {"field": "model", "vals": [val("A"), val("B")]}
        ax = axis(rng, [lead, model], 2, [st], ["DIFF_SIG"])
        rows = [{"lab": lab("120000", mm, "EAST", t, st), "value": num(x)} for mm, xs in (("A", a), ("B", b)) for t, x in enumerate(xs)]
        yield run_card(ctx, ax, rows, "EMC", nd)


def perfect(ctx):
    from metcalcpy.util.utils import perfect_score_adjustment
    import re
    names = set(STATS)
    spec = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "Derived.tla")).read()
    for n in ("NoPerfect", "ZeroPerfect", "OnePerfect"):
        names |= set(re.findall(r'"([^"]+)"', re.search(n + r" == \{(.*?)\}", spec, re.S).group(1)))
    ms = [0, .5, 1, 1.5, -1, 2, .25, -0.5, 3]
    for s in sorted(names):
        for m1, m2 in itertools.product(ms, ms) if ctx.thorough else ctx.rng.sample(list(itertools.product(ms, ms)), 14):
            p = ctx.rng.choice([.95, .5, 1.0, 0.0, .123])
            out, err = call(perfect_score_adjustment, m1, m2, s if ctx.rng.random() < .8 else s.lower(), p)
            yield {"op": "perfect", "stat": s, "m1": num(m1), "m2": num(m2), "p": num(p), "out": err or num(out)}


def run(ctx):
    events = list(model_cases(ctx))
    events += list(random_cases(ctx, ctx.scale(350, 3500)))
    events += list(tuned_emc(ctx, ctx.scale(250, 3000)))
    events += list(perfect(ctx))
    ctx.judge("TV_Scorecard", events)
