"""C03: equalizing against previously computed cases."""
import os
import pandas as pd
from vlib import call
from eqlib import rows_of, spec, cell
from c01 import table, POOL
from c02 import VARS, STATS, scenario, base


def against(rng, valid):
    df = table(rng, {f: POOL[f] for f in ("model", "lev")}, rng.choice([0, 1, 5, 30]) or 1, valid)
    if rng.random() < .3:
        df.index = [rng.randint(0, 5) for _ in range(len(df))]
    pairs = sorted({(t, l) for t, l in zip(df[valid], df["fcst_lead"])})
    cases = rng.sample(pairs, rng.randint(0, len(pairs))) + rng.sample([("2020-01-01 00:00:00", 999), ("2021-01-01 00:00:00", 0), ("2020-01-01 00:00:00", 12)], rng.choice([0, 1, 2]))
    rng.shuffle(cases)
    return listed(df, cases, rng)


def listed(df, cases, rng):
    from metcalcpy.event_equalize_against_values import event_equalize_against_values
    given = [f"{t} {l}" for t, l in cases]
    if rng.random() < .5:
        given = pd.Series(given, dtype=object).unique()
    before = rows_of(df)
    out, err = call(event_equalize_against_values, df, given)
    return {"op": "against", "rows": before, "cases": [[t, str(l)] for t, l in cases], "err": err or "", "out": [] if err else rows_of(out, ())}


def eqz(ctx, rng):
    from metcalcpy.agg_stat_eqz import AggStatEventEqz
    axes, _ = scenario(rng, rng.choice([1, 1, 2]))
    used = {f: [x for x in POOL[f] if x is not None] for f in POOL}
    used.update(fcst_var=VARS, stat_name=STATS)
    df = table(rng, used, rng.choice([1, 10, 60, 150]), "fcst_valid")
    ref = table(rng, {k: used[k] for k in used if k != "stat_name"}, rng.choice([1, 5, 20, 60]), "fcst_valid")
    ref["equalize"] = ref["fcst_valid"] + " " + ref["fcst_lead"].astype(str)
    src, refs, dst = (os.path.join(ctx.tmp, f) for f in ("in.txt", "ref.txt", "out.txt"))
    df.to_csv(src, sep="\t", index=None, na_rep="NA")
    ref.to_csv(refs, sep="\t", index=None, na_rep="NA")
    if os.path.exists(dst):
        os.remove(dst)
    on = rng.random() < .85
    p = base(df, axes, [], "x")
    p.update(agg_stat_input=src, agg_stat_input_ee=refs, agg_stat_output=dst, event_equal=str(on) if rng.random() < .5 else on)
    _, err = call(lambda: AggStatEventEqz(p).calculate_values())
    out = pd.DataFrame()
    if not err:
        try:
            out = pd.read_csv(dst, sep="\t")
        except pd.errors.EmptyDataError:
            pass
    return {"op": "eqz", "on": on, "rows": rows_of(df), "axes": [{"series": spec(a["series"]), "vars": a["vars"]} for a in axes],
            "refs": [{**{c: cell(r[c]) for c in ("fcst_var", "model", "interp_pnts", "lev", "thr")}, "case": [r["fcst_valid"], cell(r["fcst_lead"])]} for _, r in ref.iterrows()],
            "err": err or "", "out": rows_of(out, ())}


def run(ctx):
    rng = ctx.rng
    cases = ctx.model("MC_EqRef")
    events = []
    for c in rng.sample(cases, min(len(cases), ctx.scale(800, len(cases)))):
        if c["rows"]:
            df = pd.DataFrame(c["rows"])
            df["fcst_lead"] = df["fcst_lead"].astype(int)
            events.append(listed(df, [(t, int(l)) for t, l in c["cases"]], rng))
    events += [against(rng, rng.choice(["fcst_valid"] * 5 + ["fcst_valid_beg"])) for _ in range(ctx.scale(500, 5000))]
    events += [eqz(ctx, rng) for _ in range(ctx.scale(300, 3000))]
    ctx.judge("TV_Equalize", events, key=lambda e, c: e["op"] + ":" + c.split(" ")[0])
