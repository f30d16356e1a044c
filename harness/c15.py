"""C15: derived curves."""
import c14
from c14 import val, grp, mkrows, event, FAM
from vlib import num, call

FIELDS = ["interp_pnts", "fcst_perc"]
OPS = ["DIFF", "RATIO", "SS", "SINGLE", "DIFF_SIG"]


def group_names(dims, axis=1):
    """how derived series refer to grouped values"""
    names = {}
    for d in dims:
        for v in d["vals"]:
            if len(v["members"]) > 1:
                names[(d["field"], v["label"])] = f"Group_y{axis}_{len(names) + 1}"
    return names


def comp(ax, vals, stat, names):
    words = [names.get((d["field"], v["label"]), v["label"]) for d, v in zip(ax["dims"], vals)]
    return {"vals": vals, "stat": stat, "text": " ".join(words + [ax["var"], stat])}


def devent(ctx, fam, axes, rows, iterations=1, **kw):
    """run with the structured derived series turned into their configuration form"""
    import copy
    conf = copy.deepcopy(axes)
    for ax in conf:
        ax["derived"] = [[d["first"]["text"], d["second"]["text"], d["op"]] for d in ax["derived"]]
    e = event(ctx, fam, conf, rows, iterations=iterations, **kw)
    e["axes"] = axes
    return e


def model_cases(ctx):
    rng = ctx.rng
    cases = ctx.model("MC_Derived")
    cases = rng.sample(cases, ctx.scale(220, len(cases)))
    for c in cases:
        dims = [{"field": FIELDS[k], "vals": vs} for k, vs in enumerate(c["dims"])]
        indy = [{"field": "fcst_lead", "vals": c["indy"]}] if c["indy"] else []
        ax = {"dims": dims + indy, "series": len(dims), "stats": ["CSI", "GSS"], "var": "TMP"}
        names = group_names(dims)
        ax["derived"] = [{"first": comp(ax, c["first"]["vals"], c["first"]["stat"], names),
                          "second": comp(ax, c["second"]["vals"], c["second"]["stat"], names), "op": c["op"]}]
        cells = [{"interp_pnts": a, "fcst_lead": l, "fcst_var": "TMP", **({"fcst_perc": b} if len(dims) > 1 else {})}
                 for a in "123" for b in ("123" if len(dims) > 1 else "1") for l in ("12" if c["indy"] else "1")]
        if rng.random() < .3:
            cells = rng.sample(cells, max(1, len(cells) * 2 // 3))
        rows = mkrows(rng, "ctc", cells, ["CSI", "GSS"], ["2020-01-01 00:00:00", "2020-01-02 00:00:00", "2020-01-03 00:00:00"])
        yield devent(ctx, "ctc", [ax], rows, iterations=rng.choice([1, 1, 20]))


def random_axis(rng, fam, k, indy, fields):
    dims = [{"field": f, "vals": [val(x) for x in rng.sample(["A", "B", "C", "D1"], rng.choice([1, 2, 3]))]} for f in fields]
    if rng.random() < .3:
        xs = rng.sample(["A", "B", "C", "D1"], 2)
        dims[-1]["vals"].append(grp(xs))
    stats = rng.sample(FAM[fam][0], rng.choice([1, 2]))
    ax = {"dims": dims + indy, "series": len(fields), "stats": stats, "var": "TMP", "derived": []}
    names = group_names(dims, k)
    seen = set()
    for _ in range(rng.choice([1, 2, 3])):
        def one():
            return comp(ax, [rng.choice(d["vals"]) for d in dims], rng.choice(stats), names)
        d = {"first": one(), "second": one(), "op": rng.choice(OPS)}
        if not single_path(ax, d):
            continue
        key = (d["first"]["text"], d["second"]["text"], d["op"])
        if key not in seen:
            seen.add(key)
            ax["derived"].append(d)
    return ax


def single_path(ax, d):
    return sum(a != b for a, b in zip(d["first"]["vals"], d["second"]["vals"])) <= 1


def random_cases(ctx, n):
    rng = ctx.rng
    for _ in range(n):
        fam = rng.choice(["ctc", "sl1l2"])
        fields = rng.choice([["model"], ["vx_mask"], ["model", "vx_mask"], ["vx_mask", "model"]])
        kind = rng.choice(["lead", "lead", "leadgroup", "date", "none"])
        lead = ["10000", "120000"]
        if kind == "lead":
            indy = [{"field": "fcst_lead", "vals": [val(x) for x in lead]}]
        elif kind == "leadgroup":
            indy = [{"field": "fcst_lead", "vals": [grp(lead)]}]
        elif kind == "date":
            indy = [{"field": "fcst_valid_beg", "vals": [val(f"2020-01-0{d} 00:00:00") for d in (1, 2, 3)]}]
        else:
            indy, lead = [], ["120000"]
        axes = [random_axis(rng, fam, 1, indy, fields)]
        if rng.random() < .25:
            axes.append(random_axis(rng, fam, 2, indy, fields))
        cells = [{**dict(zip(fields, c)), "fcst_lead": l, "fcst_var": v} for c in combos(len(fields)) for l in lead for v in ("TMP", "HGT")]
        if rng.random() < .3:
            cells = [c for c in cells if rng.random() < .75] or cells
        if rng.random() < .12 and kind != "leadgroup":
            cells = [dict(c, interp_pnts=p) for c in cells for p in ("1", "9")]
        stats = sorted({s for a in axes for s in a["stats"]})
        rows = mkrows(rng, fam, cells, stats, [f"2020-01-0{d} 00:00:00" for d in (1, 2, 3)[:rng.choice([1, 2, 3, 3])]])
        if rng.random() < .3:      # equal or zero components
            z = c14.numbers(fam, rng)
            if rng.random() < .5:
                z = {k: (0 if k != "total" and k != "fn_on" else max(1, x)) for k, x in z.items()}
                if fam == "ctc":
                    z["total"] = z["fn_on"]
            for r in rng.sample(rows, len(rows) // 2):
                r["num"] = z
        yield devent(ctx, fam, axes, rows, iterations=rng.choice([1, 1, 1, 15]))


def combos(n):
    import itertools
    return itertools.product(["A", "B", "C", "D1"], repeat=n)


def calls(ctx, n):
    from metcalcpy.util.utils import calc_derived_curve_value, get_derived_curve_name
    rng = ctx.rng
    for _ in range(n):
        k = rng.choice([1, 1, 2, 3])

        def vals(k):
            if rng.random() < .08:
                return None
            return [None if rng.random() < .1 else rng.choice([0, 0.5, -1.25, 3, rng.randint(-99, 99) / 7, 0.0]) for _ in range(k)]
        a, b, op = vals(k), vals(k if rng.random() < .9 else k + 1), rng.choice(OPS)
        out, err = call(calc_derived_curve_value, a, b, op)
        txt = lambda xs: ["none"] if xs is None else [num(x) for x in xs]
        yield {"op": "calc", "name": op, "a": txt(a), "b": txt(b), "out": [err] if err else txt(out)}
    for op in OPS:
        for a, b in [("A TMP ME", "B TMP ME"), ("X Y TMP CSI", "X Y TMP GSS"), ("Group_y1_1 TMP ME", "A TMP ME")]:
            for args in ([a, b, op],) + (([a, b],) if op == "DIFF" else ()):
                out, err = call(get_derived_curve_name, args)
                yield {"op": "name", "d": {"op": op, "first": {"text": a}, "second": {"text": b}, "out": err or out}}


def sig(ctx, n):
    """the significance of a difference, with its five replicates read off the limits of the same difference"""
    import pandas as pd
    from aggrun import params, run_agg, cell
    rng = ctx.rng
    for _ in range(n):
        fam = rng.choice(["ctc", "sl1l2"])
        st = rng.choice(FAM[fam][0])
        vals = [val("A"), val("B")]
        ax = {"dims": [{"field": "model", "vals": vals}, {"field": "fcst_lead", "vals": [val("120000")]}], "series": 1, "stats": [st], "var": "TMP"}
        cells = [{"model": m, "fcst_lead": "120000", "fcst_var": "TMP"} for m in "AB"]
        rows = mkrows(rng, fam, cells, [st], [f"2020-01-{d:02d} 00:00:00" for d in range(1, rng.choice([2, 3, 6, 10]) + 1)])
        for r in rows:                                          # every replicate has a value
            if fam == "ctc":
                r["num"] = {c: rng.randint(1, 30) for c in ("fy_oy", "fy_on", "fn_oy", "fn_on")}
                r["num"]["total"] = sum(r["num"].values())
            else:
                f, o = rng.randint(1, 40) / 8, rng.randint(1, 40) / 8
                r["num"] = {"fbar": f, "obar": o, "fobar": f * o, "ffbar": f * f + rng.randint(0, 64) / 8, "oobar": o * o + rng.randint(8, 64) / 8,
                            "mae": rng.randint(1, 40) / 8, "total": rng.choice([1, 2, 4, 8])}
        first, second = rng.choice(["AB", "BA"])
        seed, res, err = rng.randrange(1, 10 ** 6), {}, ""
        for op, alpha in (("DIFF", 0), ("DIFF", .5), ("DIFF", 1), ("DIFF_SIG", .05)):
            ax["derived"] = [[f"{first} TMP {st}", f"{second} TMP {st}", op]]
            p = c14.config(fam, [ax], num_iterations=5, alpha=alpha, random_seed=seed, num_threads=1)
            out, err = run_agg(ctx.tmp, c14.frame(rows), p)
            if err:
                break
            r = [(cell(x["stat_value"]), cell(x["stat_btcl"]), cell(x["stat_btcu"])) for _, x in out.iterrows()]
            res[op, alpha] = r
        e = {"op": "sig", "stat": st, "err": err or "", "a": "", "b": "", "v": "", "reps": [], "out": ""}
        if not err:
            o = res["DIFF", 0]
            a, b = (o[0][0], o[1][0]) if first == "A" else (o[1][0], o[0][0])
            reps = [o[2][1], res["DIFF", .5][2][1], res["DIFF", 1][2][1], res["DIFF", .5][2][2], o[2][2]]
            e.update(a=a, b=b, v=o[2][0], reps=reps, out=res["DIFF_SIG", .05][2][0])
            if "none" in reps + [a, b, o[2][0]]:
                continue                                        # replicates without a value cannot be read off
        yield e


def etb(ctx):
    ax = {"dims": [{"field": "model", "vals": [val("A"), val("B")]}, {"field": "fcst_lead", "vals": [val("120000")]}], "series": 1, "stats": ["FBAR"],
          "var": "TMP", "derived": [["A TMP FBAR", "B TMP FBAR", "ETB"]]}
    cells = [{"model": m, "fcst_lead": "120000", "fcst_var": "TMP"} for m in "AB"]
    rows = mkrows(ctx.rng, "sl1l2", cells, ["FBAR"], [f"2020-01-0{d} 00:00:00" for d in range(1, 8)])
    return {"op": "etb", "err": event(ctx, "sl1l2", [ax], rows)["err"]}


def run(ctx):
    events = list(model_cases(ctx))
    events += list(random_cases(ctx, ctx.scale(260, 2600)))
    events += list(calls(ctx, ctx.scale(600, 6000)))
    events += list(sig(ctx, ctx.scale(60, 600)))
    events.append(etb(ctx))
    ctx.judge("TV_Derived", events, key=lambda e, c: e["op"] + ":" + (c.split(":")[-1] if e["op"] == "etb" else c.split(" ")[0]))
