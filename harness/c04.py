"""C04: categorical scores of pooled contingency tables."""
import numpy as np
from vlib import callnum

CELLS = ["fy_oy", "fy_on", "fn_oy", "fn_on"]
CTC = ["baser", "acc", "fbias", "fmean", "pody", "pofd", "podn", "far", "csi", "gss", "hk", "hss", "odds", "odds1",
       "lodds", "bagss", "orss", "sedi", "seds", "edi", "eds", "ctc_total", "cts_total",
       "ctc_fy_oy", "ctc_fy_on", "ctc_fn_oy", "ctc_fn_on", "ctc_oy", "ctc_on", "ctc_fy", "ctc_fn"]
NBR = ["baser", "acc", "fbias", "fmean", "pody", "pofd", "podn", "far", "csi", "gss", "hk", "hss", "odds", "ctc_total"]


def table(tab, rng=None, obj=False):
    """ndarray + column names as the aggregation hands them over; column order shuffled when rng is given"""
    cols = CELLS + ["total"]
    data = {c: [int(v) for v in tab[c]] for c in CELLS}
    data["total"] = [sum(r) for r in zip(*[data[c] for c in CELLS])]
    if rng:
        cols = cols[:]
        rng.shuffle(cols)
    arr = np.array([data[c] for c in cols], dtype=object if obj else float).T
    return arr, np.array(cols)


def observe(mod, prefix, names, arr, cols):
    return {s: callnum(getattr(mod, "calculate_" + prefix + s), arr, cols) for s in names}


def run(ctx):
    import metcalcpy.util.ctc_statistics as cs
    import metcalcpy.util.nbrctc_statistics as ns
    import metcalcpy.util.mcts_statistics as ms
    rng = ctx.rng
    events = []

    def both(tab, obj=False):
        arr, cols = table(tab, rng, obj)
        st = {c: [str(v) for v in tab[c]] for c in CELLS}
        events.append({"op": "ctc", "fam": "ctc", "tab": st, "out": observe(cs, "", CTC, arr, cols)})
        events.append({"op": "ctc", "fam": "nbrctc", "tab": st, "out": observe(ns, "nbr_", NBR, arr, cols)})

    for t in ctx.model("MC_Ctc", consts={"M1": ctx.scale(3, 4), "M2": ctx.scale(1, 2)}):
        both(t)
    # larger, randomly shaped tables: many rows, sparse cells, large counts
    for k in range(ctx.scale(500, 6000)):
        n = rng.choice([1, 1, 2, 3, 5, 9, 25])
        top = rng.choice([1, 3, 20, 400, 1000003])
        tab = {c: [rng.randint(0, top) if rng.random() > .25 else 0 for _ in range(n)] for c in CELLS}
        both(tab, obj=k % 2 == 0)
        # the same cases in another order and split over more lines
        order = list(range(n))
        rng.shuffle(order)
        alt = {c: [tab[c][i] for i in order] for c in CELLS}
        for c in CELLS:
            i = rng.randrange(n)
            cut = rng.randint(0, alt[c][i])
            alt[c][i] -= cut
            alt[c].append(cut)
        a1, c1 = table(tab)
        a2, c2 = table(alt)
        events.append({"op": "same", "tab": tab, "out": observe(cs, "", CTC, a1, c1), "alt": observe(cs, "", CTC, a2, c2)})
    for k in range(ctx.scale(120, 1500)):
        nc = rng.choice([2, 3, 4])
        n = rng.choice([1, 2, 3])
        ec = rng.choice(["0.5", "0.25", "0", "1", "0.125"])
        cells = [[rng.randint(0, 9) if rng.random() > .2 else 0 for _ in range(nc * nc)] for _ in range(n)]
        if rng.random() < .1:
            cells = [[0] * (nc * nc) for _ in range(n)]
        cols = ["n_cat", "ec_value"]
        idx = [(i, j) for i in range(1, nc + 1) for j in range(1, nc + 1)]
        for q, (i, j) in enumerate(idx):
            cols += [f"i_value_{q}", f"j_value_{q}", f"fi_oj_{q}"]
        rows = []
        for r in cells:
            row = [nc, float(ec)]
            for q, (i, j) in enumerate(idx):
                row += [i, j, r[q]]
            rows.append(row)
        arr = np.array(rows, dtype=object)
        events.append({"op": "mcts", "ncat": nc, "ec": ec, "cells": [[str(v) for v in r] for r in cells],
                       "hss": callnum(ms.calculate_mcts_hss_ec, arr, np.array(cols))})
    ctx.judge("TV_Ctc", events, key=lambda e, c: e.get("fam", e["op"]) + ":" + c.split(" ")[0])
