"""Shared by the equalization checks: tables and their text form."""
import math
import pandas as pd
from vlib import num


def cell(x):
    if x is None or (isinstance(x, float) and math.isnan(x)) or x is pd.NaT or x is pd.NA:
        return "none"
    return x if isinstance(x, str) else num(x)


def rows_of(df, drop=("equalize",)):
    cols = [c for c in df.columns if c not in drop]
    return [{c: cell(x) for c, x in zip(cols, r)} for r in df[cols].itertuples(index=False, name=None)]


def members(vals):
    """(configured values, members)"""
    return [m for v in vals for m in v["members"]]


def conf(dims):
    return {d["field"]: [v["label"] for v in d["vals"]] for d in dims}


def spec(dims):
    return [{"field": d["field"], "members": members(d["vals"])} for d in dims]
