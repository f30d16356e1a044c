"""C12: every score call answers with a finite number or the missing marker."""
import numpy as np
from vlib import callnum, num, MachineryError
import c05, c06, c07
from c11 import stats_of

CT = ["total", "fy_oy", "fy_on", "fn_oy", "fn_on"]


def families(ag, bo):
    import inspect
    av, bv = vars(ag), vars(bo)

    def of(module, ns):
        return sorted({n[10:] for n, f in ns.items() if n.startswith("calculate_") and callable(f) and f.__module__.endswith("." + module)
                       and list(inspect.signature(f).parameters)[:2] == ["input_data", "columns_names"]})
    fam = {
        "ctc": (CT + ["ec_value"], of("ctc_statistics", av)),
        "nbrctc": (CT, of("nbrctc_statistics", av)),
        "sl1l2": (c05.COLS["sl1l2"] + ["total"], of("sl1l2_statistics", av)),
        "sal1l2": (c05.COLS["sal1l2"] + ["total"], of("sal1l2_statistics", av)),
        "grad": (c05.COLS["grad"] + ["total"], of("grad_statistics", av)),
        "ssvar": (c05.COLS["ssvar"] + ["total", "total_orig"], of("ssvar_statistics", av)),
        "vl1l2": (c06.BASE + ["total"], of("vl1l2_statistics", av)),
        "val1l2": (c06.ANOM + ["total"], of("val1l2_statistics", av)),
        "vcnt": (c06.BASE + c06.ANOM + ["total"], of("vcnt_statistics", av)),
        "ecnt": (c07.COLS["ecnt"] + ["mse", "mse_oerr", "variance", "variance_oerr", "variance_plus_oerr", "total"], of("ecnt_statistics", av)),
        "rps": (c07.COLS["rps"] + ["rps_climo", "total"], of("rps_statistics", av)),
        "nbrcnt": (c07.COLS["nbr_cnt"] + ["total"], of("nbrcnt_statistics", av)),
        "pct": (["thresh_i", "oy_i", "on_i", "thresh_i.1", "oy_i.1", "on_i.1", "total", "o_bar"], of("pstd_statistics", av)),
        "obj": (["fcst_flag", "simple_flag", "matched_flag", "area", "volume", "object_type"], [s["name"] for s in stats_of(bv)]),
    }
    for k, (c, s) in fam.items():
        if not s:
            raise MachineryError("no scores found for " + k)
    return fam


def build(fam, cols, shape, rng):
    """the table of a shape; usual numbers are consistent with nothing but their type"""
    n = shape["rows"]
    cls = {c: shape["base"] for c in cols}
    for k, d in shape["dev"]:
        cls[cols[k - 1]] = d
    arr = np.empty((n, len(cols)), dtype=object if fam == "obj" else float)
    for j, c in enumerate(cols):
        for i in range(n):
            k = cls[c]
            if c == "object_type":
                x = {"usual": ["2d", "3d"][i % 2], "zero": "2d", "one": "3d"}.get(k, "2d")
            elif c in ("fcst_flag", "simple_flag", "matched_flag"):
                x = {"usual": rng.randint(0, 1), "zero": 0, "one": 1}.get(k, 0)
            elif c == "thresh_i":
                x = 0.0
            elif c == "thresh_i.1":
                x = 0.5
            elif k == "missing" or (k == "partly" and i == 0):
                x = float("nan")
            elif k == "zero":
                x = 0.0
            elif k == "one":
                x = 1.0
            else:
                x = float(rng.choice([2, 3, 5, 0.25, 7.5, 40]))
                if fam in ("ctc", "nbrctc", "pct", "obj"):
                    x = float(rng.choice([2, 3, 5, 40]))
                elif rng.random() < .3 and c != "total":
                    x = -x
            arr[i, j] = x
    return arr


def run(ctx):
    import metcalcpy.agg_stat as ag
    import metcalcpy.agg_stat_bootstrap as bo
    import inspect
    rng = ctx.rng
    fam = families(ag, bo)
    shapes = {}
    events = []
    calls = 0
    for f, (cols, stats) in fam.items():
        n = len(cols)
        if n not in shapes:
            shapes[n] = ctx.model("MC_Total", consts={"N": n})
        todo = shapes[n]
        single = [s for s in todo if len(s["dev"]) < 2]
        pairs = [s for s in todo if len(s["dev"]) == 2]
        budget = ctx.scale(16000, 10 ** 7) // ((8 if f in ("pct", "obj") else 1) * len(stats))
        if f in ("pct", "obj") and not ctx.thorough:
            single = [s for s in single if not s["rows"]] + rng.sample(single, min(len(single), 40))
        if len(pairs) > budget:
            pairs = rng.sample(pairs, budget)
        ns = vars(bo) if f == "obj" else vars(ag)
        names = np.array(cols, dtype=object)
        fn = [(s, ns["calculate_" + s], "aggregation" in inspect.signature(ns["calculate_" + s]).parameters) for s in stats]
        for s in single + pairs:
            arr = build(f, cols, s, rng)
            out = []
            for name, g, agg in fn:
                for a in ([(True,), (False,)] if agg else [()]):
                    out.append([name, callnum(g, arr.copy(), names, *a)])
            calls += len(out)
            tab = {c: [num(x) if not isinstance(x, str) else x for x in arr[:, j]] for j, c in enumerate(cols)}
            events.append({"op": "call", "fam": f, "tab": tab, "out": out})
    ctx.notes["calls"] = calls
    ctx.judge("TV_Total", events, key=lambda e, c: c.split(" ")[0])
