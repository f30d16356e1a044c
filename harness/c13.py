"""C13: calls in one process do not influence one another and leave their arguments alone.

The calls run in forked children of a parent that has only imported the code, so every child is a fresh process."""
import contextlib, copy, hashlib, inspect, json, os, random, warnings
import numpy as np
import pandas as pd
from vlib import call, num, MachineryError
from aggrun import params
import c12

EARLY = [("ctc", s, True) for s in ("fbias", "fmean", "gss", "hss", "lodds", "bagss", "baser", "acc")] + \
        [("nbrctc", s, True) for s in ("nbr_fbias", "nbr_gss", "nbr_hss", "nbr_fmean")] + \
        [("sal1l2", s, True) for s in ("anom_corr", "anom_corr_raw")]


def enc(r):
    if isinstance(r, pd.DataFrame):
        t = r.to_csv(index=False)
        return "table:" + hashlib.sha1(t.encode()).hexdigest()[:12] + ":" + t[:60].replace("\n", "|")
    if isinstance(r, (list, tuple)):
        return "list:" + ",".join(enc(x) for x in r)
    if isinstance(r, dict):
        return "dict:" + ",".join(f"{k}={enc(r[k])}" for k in sorted(r))
    if isinstance(r, np.ndarray):
        return "arr:" + ",".join(enc(x) for x in r.ravel().tolist())
    if isinstance(r, str):
        return r
    return num(r)


def same(a, b):
    if isinstance(a, pd.DataFrame):
        return list(a.columns) == list(b.columns) and a.equals(b) and list(a.index) == list(b.index)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and enc(a) == enc(b)
    return a == b


def do_call(c, tmp, fam):
    """perform one described call; (answer, changed arguments)"""
    import metcalcpy.agg_stat as ag
    import metcalcpy.agg_stat_bootstrap as bo
    kind = c["kind"]
    rng = random.Random(c["arg"])
    if kind in ("value", "undefined", "early", "missing", "empty"):
        f = c["fam"]
        cols = list(fam[f][0])
        order = rng.sample(cols, len(cols))
        if f == "pct":                       # the columns of one kind keep their order
            kind_of = lambda x: x.split(".")[0]
            queue = {k: [x for x in cols if kind_of(x) == k] for k in map(kind_of, cols)}
            order = [queue[kind_of(x)].pop(0) for x in order]
        cols = order
        base = {"value": "usual", "undefined": "zero", "early": "zero", "missing": "missing", "empty": "usual"}[kind]
        shape = {"rows": 0 if kind == "empty" else 2, "base": base, "dev": []}
        arr = c12.build(f, cols, shape, rng)
        names = np.array(cols, dtype=object)
        g = (vars(bo) if f == "obj" else vars(ag))["calculate_" + c["fn"]]
        args = [arr, names] + ([c["arg"] % 2 == 0] if "aggregation" in inspect.signature(g).parameters else [])
        labels = ["table", "column names", "flag"]
    elif kind == "table":
        from metcalcpy.util.ctc_statistics import calculate_ctc_roc
        from metcalcpy.util.ctc_statistics import sort_by_thresh
        n = rng.choice([1, 3, 5])
        df = pd.DataFrame([{"fcst_thresh": rng.choice([">0", ">=5", ">10", "<2"]), "fy_oy": rng.choice([0, 3]), "fy_on": rng.choice([0, 2]),
                            "fn_oy": rng.choice([0, 4]), "fn_on": rng.choice([0, 1]), "total": 10} for _ in range(n)])
        g, args, labels = [(calculate_ctc_roc, [df, True], ["table", "order"]), (sort_by_thresh, [df], ["table"])][c["arg"] % 2]
    elif kind == "eclv":
        from metcalcpy.util.eclv_statistics import calculate_eclv
        z = rng.random() < .4
        arr = np.array([[0 if z else float(rng.randint(0, 5)) for _ in range(4)]])
        names = np.array(["fy_oy", "fy_on", "fn_oy", "fn_on"], dtype=object)
        bad = rng.random() < .3
        g, args = calculate_eclv, [arr, names, None, "pct" if bad else "ctc", [.1, .3, .5], 0]
        labels = ["table", "column names", "threshold", "type", "ratios", "base rate"]
    elif kind == "equalize":
        from metcalcpy.event_equalize import event_equalize
        df = frame(rng)
        g = event_equalize
        args = [df, ["fcst_lead", "vx_mask"][c["arg"] % 2], {"model": ["A", "B"]}, ["vx_mask"], [["X"]], True, False]
        labels = ["table", "independent variable", "series", "fixed", "fixed values", "by independent", "multi"]
        if c["arg"] % 5 == 3:
            from metcalcpy.util.utils import perform_event_equalization
            p = {"indy_var": "fcst_lead", "line_type": "ctc", "fixed_vars_vals_input": {"vx_mask": {"vx_mask_0": ["X"]}}, "series_val_1": {"model": ["A", "B"]},
                 "series_val_2": {"model": ["B:A"]}, "fcst_var_val_1": {"TMP": ["CSI", "GSS"]}, "fcst_var_val_2": {"TMP": ["GSS"]}}
            g, args, labels = perform_event_equalization, [p, df], ["configuration", "table"]
        elif c["arg"] % 5 == 4:
            from metcalcpy.agg_stat_eqz import AggStatEventEqz
            fi, fe, fo = (os.path.join(tmp, f"{n}{os.getpid()}.data") for n in ("i", "e", "o"))
            df = df.rename(columns={"fcst_valid_beg": "fcst_valid"})
            df.to_csv(fi, sep="\t", index=False, na_rep="NA")
            df["equalize"] = df["fcst_valid"] + " " + df["fcst_lead"].astype(str)
            df[df["fcst_lead"] == 120000].to_csv(fe, sep="\t", index=False, na_rep="NA")
            p = {"agg_stat_input": fi, "agg_stat_input_ee": fe, "agg_stat_output": fo, "event_equal": "True", "series_val_1": {"model": ["A", "B"]},
                 "series_val_2": {}, "fcst_var_val_1": {"TMP": ["CSI", "GSS"]}, "fcst_var_val_2": {}}

            def g(p):
                AggStatEventEqz(p).calculate_values()
                return open(fo).read()
            args, labels = [p], ["configuration"]
    elif kind == "run":
        df = frame(rng)
        fi, fo = os.path.join(tmp, f"i{os.getpid()}.data"), os.path.join(tmp, f"o{os.getpid()}.data")
        df.to_csv(fi, sep="\t", index=False, na_rep="NA")
        grp = "A;B" if c["arg"] % 3 == 0 else "A"
        p = params(line_type="ctc", series_val_1={"model": [grp, "B"]}, indy_vals=["120000", "240000"], list_stat_1=["CSI", "GSS"],
                   fcst_var_val_1={"TMP": ["CSI", "GSS"]}, num_iterations=1 if c["arg"] % 2 else 5, event_equal="True" if c["arg"] % 5 == 0 else "False",
                   derived_series_1=[["A TMP CSI", "B TMP CSI", "DIFF"]] if grp == "A" else [], agg_stat_input=fi, agg_stat_output=fo)
        p["fixed_vars_vals_input"] = {"vx_mask": {"vx_mask_0": ["X"]}} if c["arg"] % 5 == 0 else {}

        def g(p):
            ag.AggStat(p).calculate_stats_and_ci()
            return open(fo).read()
        args, labels = [p], ["configuration"]
        if c["arg"] % 10 == 7:
            from metcalcpy.sum_stat import SumStat
            p = {"sum_stat_input": fi, "sum_stat_output": fo, "line_type": "ctc", "event_equal": "True", "indy_var": "fcst_lead", "indy_vals": ["120000;240000"],
                 "series_val_1": {"model": ["A;B", "A"]}, "series_val_2": {}, "fcst_var_val_1": {"TMP": ["CSI", "GSS"]}, "fcst_var_val_2": {},
                 "fixed_vars_vals_input": {"vx_mask": {"vx_mask_0": ["X"]}}}
            args = [p]

            def g(p):
                SumStat(p).calculate_stats()
                return open(fo).read()
    else:
        raise MachineryError(kind)
    before = [copy.deepcopy(a) for a in args]
    strict = raises_on_warning()
    r, e = call(g, *args, limit=60)
    strict = not strict and raises_on_warning()
    got = e or (("text:" + hashlib.sha1(r.encode()).hexdigest()[:12]) if isinstance(r, str) else enc(r))
    return got[:200], [l for l, a, b in zip(labels, before, args) if not same(a, b)] + (["warning policy"] if strict else [])


def raises_on_warning():
    """are warnings turned into errors now?"""
    try:
        with contextlib.redirect_stderr(None):
            warnings.warn("probe")
            warnings.warn("probe", RuntimeWarning)
            warnings.warn("probe", FutureWarning)
    except Warning:
        return True
    return False


def frame(rng):
    rows = []
    for m in "AB":
        for lead in (120000, 240000):
            for d in range(1, 4):
                if rng.random() < .12:
                    continue
                for s in ("CSI", "GSS"):
                    h, f, i, n = (rng.choice([0, 2, 5]) for _ in range(4))
                    rows.append({"model": m, "fcst_lead": lead, "fcst_valid_beg": f"2020-01-{d:02d} 00:00:00", "fcst_init_beg": f"2020-01-{d:02d} 00:00:00",
                                 "vx_mask": "X", "fcst_var": "TMP", "stat_name": s, "total": h + f + i + n, "fy_oy": h, "fy_on": f, "fn_oy": i, "fn_on": n,
                                 "stat_value": "NA"})
    return pd.DataFrame(rows)


def in_child(calls, tmp, fam):
    """perform the calls one after another in a fresh process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = [do_call(c, tmp, fam) for c in calls]
            with os.fdopen(w, "w") as f:
                json.dump(out, f)
        except BaseException as e:  # noqa
            os.write(2, repr(e).encode() + b"\n")
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        txt = f.read()
    os.waitpid(pid, 0)
    if not txt:
        raise MachineryError("a worker died on " + json.dumps(calls))
    return json.loads(txt)


def run(ctx):
    import metcalcpy.agg_stat as ag
    import metcalcpy.agg_stat_bootstrap as bo
    from concurrent.futures import ThreadPoolExecutor
    rng = ctx.rng
    fam = c12.families(ag, bo)
    scores = [(f, s) for f, (_, ss) in fam.items() for s in ss if f != "obj"]
    objs = [("obj", s) for s in fam["obj"][1]]
    seqs = ctx.model("MC_Indep", consts={"Depth": ctx.scale(3, 4)})

    def inst(kind):
        if kind == "early":
            f, s, _ = rng.choice(EARLY)
            return {"kind": kind, "fam": f, "fn": s, "arg": rng.randrange(4)}
        if kind in ("value", "undefined", "missing", "empty"):
            f, s = rng.choice(scores + objs[:10])
            return {"kind": kind, "fam": f, "fn": s, "arg": rng.randrange(2)}
        return {"kind": kind, "arg": rng.randrange(10)}
    lists = [[inst(k) for k in q] for q in seqs]
    # every score once after an early answer, and twice in a row
    for f, s in scores + rng.sample(objs, 30):
        c = {"kind": rng.choice(["value", "value", "undefined", "missing"]), "fam": f, "fn": s, "arg": rng.randrange(4)}
        lists.append([inst("early"), c, c])
        # and for two tables laid out differently
        lists.append([{**c, "kind": "value", "arg": k} for k in rng.sample(range(4), 2)])
    # every way of answering early, then the calls that rely on ambient settings
    for f, s, _ in EARLY:
        lists.append([{"kind": "early", "fam": f, "fn": s, "arg": 0}, inst("table"), inst("equalize"), inst("run")])
    fresh = {}
    todo = {json.dumps(c, sort_keys=True): c for q in lists for c in q}
    with ThreadPoolExecutor(6) as ex:
        for k, r in zip(todo, ex.map(lambda c: in_child([c], ctx.tmp, fam), todo.values())):
            fresh[k] = r[0]
        outs = list(ex.map(lambda q: in_child(q, ctx.tmp, fam), lists))
    label = lambda c: c["kind"] + (":" + c["fn"] if "fn" in c else ":" + str(c["arg"]))
    events = []
    for q, o in zip(lists, outs):
        for k, (c, (got, changed)) in enumerate(zip(q, o)):
            events.append({"op": "call", "call": label(c), "after": ",".join(label(x) for x in q[:k]), "got": got,
                           "fresh": fresh[json.dumps(c, sort_keys=True)][0], "changed": changed})
    ctx.notes["sequences"] = len(lists)
    ctx.judge("TV_Indep", events, key=lambda e, c: c.split(" ")[0] + ":" + e["call"])
