"""Shared by the merging and summary checks: lines of every line type."""
from fractions import Fraction
import pandas as pd
from vlib import num
from eqlib import cell
import c05, c06, c07

CTC = ["fy_oy", "fy_on", "fn_oy", "fn_on"]
COLS = {"ctc": CTC, "nbrctc": CTC, "sl1l2": c05.COLS["sl1l2"], "sal1l2": c05.COLS["sal1l2"], "grad": c05.COLS["grad"], "vl1l2": c06.BASE, "val1l2": c06.ANOM,
        "ecnt": c07.COLS["ecnt"] + ["crpss"], "rps": c07.COLS["rps"], "nbrcnt": c07.COLS["nbr_cnt"]}
CTCS = ["csi", "gss", "acc", "fbias", "pody", "pofd", "far", "hss", "hk", "baser", "fmean", "odds", "ctc_total", "podn"]
VCNT = [s for s in c06.STATS if s.startswith("vcnt") and "anom" not in s] if hasattr(c06, "STATS") and isinstance(c06.STATS, list) else \
    ["vcnt_fbar", "vcnt_obar", "vcnt_fs_rms", "vcnt_msve", "vcnt_rmsve", "vcnt_fstdev", "vcnt_fdir", "vcnt_odir", "vcnt_vdiff_speed", "vcnt_speed_err", "vcnt_dir_err"]
STATS = {"ctc": CTCS, "nbrctc": ["nbr_csi", "nbr_gss", "nbr_acc", "nbr_fbias", "nbr_pody", "nbr_far", "nbr_hss", "nbr_hk", "nbr_baser", "nbr_ctc_total"],
         "sl1l2": c05.STATS["sl1l2"], "sal1l2": c05.STATS["sal1l2"] + ["sal1l2_total"], "grad": c05.STATS["grad"],
         "vl1l2": ["vl1l2_bias", "vl1l2_fspd", "vl1l2_fvar", "vl1l2_msve", "vl1l2_ospd", "vl1l2_ovar", "vl1l2_rmsve", "vl1l2_speed_err", "vl1l2_total"] + VCNT,
         "val1l2": ["val1l2_anom_corr", "val1l2_total", "vcnt_anom_corr", "vcnt_anom_corr_uncntr"], "ecnt": c07.STATS["ecnt"], "rps": c07.STATS["rps"], "nbrcnt": c07.STATS["nbr_cnt"]}


def numbers(fam, rng):
    """the numbers of one line, as exact fractions"""
    if fam in ("ctc", "nbrctc"):
        d = {c: Fraction(rng.choice([0, 1, 2, 5, 17, 40])) for c in CTC}
        d["total"] = sum(d.values())
        if not d["total"]:
            d["fn_on"] = d["total"] = Fraction(1)
        return d
    if fam in ("vl1l2", "val1l2"):
        t = c06.rand_tab(rng, 1)
    elif fam in ("ecnt", "rps", "nbrcnt"):
        t = c07.rand_tab(rng, "nbr_cnt" if fam == "nbrcnt" else fam, 1)
        t["crpss"] = [Fraction(rng.choice([-8, 0, 1, 5]), 8)]
    else:
        t = c05.rand_tab(rng, fam, 1)
    d = {c: Fraction(t[c][0]) for c in COLS[fam] + ["total"]}
    return d


LABS = {"model": ["A", "B"], "vx_mask": ["E", "W", "N"], "fcst_lead": ["0", "120000", "240000"], "interp_pnts": ["1", "9"], "cov_thresh": ["0.5", "1.25"]}
TIMES = ["2020-01-01 00:00:00", "2020-01-01 12:00:00", "2020-01-02 00:00:00"]


def mkrows(rng, fam, n, stats, unique=False, fields=("model", "vx_mask", "fcst_lead", "interp_pnts", "cov_thresh"), nvars=2):
    """n cases, each with the lines of the statistics (which share the numbers of the case)"""
    rows = []
    for _ in range(n):
        lab = {f: rng.choice(LABS[f]) for f in fields}
        lab["fcst_valid_beg"] = rng.choice(TIMES)
        lab["fcst_var"] = rng.choice(["TMP", "HGT"][:nvars])
        if unique and any(all(r["lab"][f] == lab[f] for f in lab) for r in rows):
            continue
        d = numbers(fam, rng)
        for s in stats:
            rows.append({"lab": {**lab, "stat_name": s.upper()}, "num": d})
    rng.shuffle(rows)
    for k, r in enumerate(rows):
        r["lab"]["id"] = f"r{k}"
    return rows


def frame(rows):
    df = pd.DataFrame([{**r["lab"], **{c: float(x) for c, x in r["num"].items()}, "stat_value": None} for r in rows])
    df["fcst_lead"] = df["fcst_lead"].astype(int)
    for c in ("total", "n_ge_obs", "n_lt_obs", *CTC):
        if c in df:
            df[c] = df[c].astype(int)
    for c in ("interp_pnts", "cov_thresh"):
        if c in df:
            df[c] = df[c].astype(float if c == "cov_thresh" else int)
    return df


def enc(rows):
    return [{"lab": {c: "none" if x is None else x for c, x in r["lab"].items()}, "num": {c: num(x) for c, x in r["num"].items()}} for r in rows]


def text(x):
    """a label cell"""
    return cell(x)
