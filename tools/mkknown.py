"""Writes known-findings.txt: the known findings below and one entry per repair commit in /repo."""
import subprocess, os
PROP = [  # property of each repair, in commit order: (property, words of the commit subject)
    ("C05", "report rmse, si, estdev"), ("C05", "estdev of aggregated lines"), ("C05", "standard deviation of a single pair"), ("C05", "fractional error"),
    ("C05", "spread/skill total"), ("C06", "wind direction is computed in degrees"), ("C06", "wind direction error is the signed"),
    ("C06", "wind direction error uses the averaged"), ("C06", "weight the wind components"), ("C07", "spread plus observation error"),
    ("C07", "observed event rate"), ("C08", "Brier score, skill and resolution"), ("C08", "ROC area without events"), ("C08", "base rate of a probability table"),
    ("C09", "ROC thresholds are listed"), ("C13", "sorting by threshold leaves"), ("C10", "economic value of probability lines"),
    ("C10", "economic value curves honour"), ("C10", "economic value run without series"), ("C10", "economic value run writes missing"),
    ("C10", "pivotal confidence limits of economic"), ("C11", "object count and area ratios"), ("C11", "object CSI, POD"), ("C11", "an empty object selection"),
    ("C11", "3D volume ratios find"), ("C12", "counters and totals of missing columns"), ("C12", "probability-table scores of empty"),
    ("C13", "event equalization leaves the caller"), ("C13", "scores that answer early"), ("C13", "a ';' group of independent values"),
    ("C15", "derived curves find series variables"), ("C15", "derived curves pick the component"), ("C15", "derived curves are refused only"),
    ("C15", "derived curves of series with different"), ("C15", "derived curves read the series values"),
]
PROP += [tuple(l.rstrip("\n").split("\t")) for l in open(os.path.join(os.path.dirname(__file__), "fixes.tsv"))] if os.path.exists(os.path.join(os.path.dirname(__file__), "fixes.tsv")) else []
KNOWN = [l for l in open(os.path.join(os.path.dirname(__file__), "known.tsv")).read().splitlines() if l]
out = ["# known: property=<id> key=<key> <what fails>   |   fixed: property=<id> <commit> <what failed>"]
for l in KNOWN:
    p, k, w = l.split("\t")
    out.append(f"known: property={p} key={k} {w}")
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixes = [l.split(" ", 2) for l in log if l.split(" ", 2)[1] == "fix:"]
for h, _, s in fixes:
    ps = [p for p, w in PROP if w in s]
    assert len(ps) == 1, (s, ps)
    out.append(f"fixed: property={ps[0]} {h} {s}")
open("/verif/known-findings.txt", "w").write("\n".join(out) + "\n")
