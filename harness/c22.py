"""C22: paired equivalence tests."""
from fractions import Fraction
from vlib import num, call

ARGS = ["n", "m1", "m2", "sd1", "sd2", "r", "low", "high"]


def record(res, err):
    if err:
        return {"err": err}
    pair = lambda k: [num(z) for z in res[k]]
    return {"err": "", "dif": num(res["dif"]), "df": num(res["degrees_of_freedom"]), "t": pair("t"), "p": pair("p"), "ci_tost": pair("ci_tost"),
            "ci_ttest": pair("ci_ttest"), "eqbound": pair("eqbound"), "xlim": pair("xlim"), "combined": str(res["combined_outcome"]),
            "test": str(res["test_outcome"]), "tost": str(res["tost_outcome"])}


def event(fn, where, x, default=False):
    args = [x[a] for a in ARGS] + ([] if default else [x["alpha"]])
    return {"op": "tost", "where": where, "x": {k: (v if k == "n" else num(v)) for k, v in x.items()}, "out": record(*call(fn, *args))}


def run(ctx):
    from metcalcpy.util import utils, tost_paired as mod
    impl = [("utils", utils.tost_paired), ("module", mod.tost_paired)]
    rng = ctx.rng
    events = []
    cases = ctx.model("MC_Tost")
    for c in rng.sample(cases, ctx.scale(700, len(cases))):
        x = {k: (v if k == "n" else float(Fraction(v))) for k, v in c.items()}
        for w, f in impl:
            events.append(event(f, w, x))
    for _ in range(ctx.scale(700, 7000)):
        s = rng.choice([1e-3, 1, 1, 50])
        low, high = sorted([rng.choice([-.001, -.5, -1, round(rng.uniform(-2, 2), 3)]), rng.choice([.001, .5, .3, round(rng.uniform(-2, 2), 3)])])
        x = {"n": rng.choice([2, 3, 4, 10, 30, 365, 5000]), "m1": round(rng.uniform(-3, 3), 4) * s, "m2": round(rng.uniform(-3, 3), 4) * s,
             "sd1": round(rng.uniform(.01, 3), 3) * s, "sd2": round(rng.uniform(.01, 3), 3) * s,
             "r": rng.choice([0, 1, -1, .5, round(rng.uniform(-1, 1), 4)]), "low": low, "high": high,
             "alpha": rng.choice([.05, .05, .01, .1, .5, .3, .001, .9])}
        if rng.random() < .2:
            x["m2"] = x["m1"]
        if rng.random() < .15:
            x["sd2"] = x["sd1"]
        if rng.random() < .08:
            k, v = rng.choice([("n", 1), ("n", 0), ("alpha", 1.0), ("alpha", -.1), ("alpha", 2), ("sd1", 0), ("sd2", -1.0), ("r", 1.01), ("r", -1.5)])
            x[k] = v
        default = rng.random() < .1
        if default:
            x["alpha"] = .05
        for w, f in impl:
            events.append(event(f, w, x, default))
    for _ in range(ctx.scale(60, 600)):
        n = rng.choice([4, 5, 8, 12])
        a = [rng.randint(-40, 40) / 4 for _ in range(n)]
        b = [y + rng.randint(-9, 9) / 4 + rng.choice([0, 0, 5]) for y in a]
        if len(set(a)) < 3 or len(set(b)) < 3 or len({p - q for p, q in zip(a, b)}) < 2:
            continue
        events.append({"op": "etb", "a": [num(z) for z in a], "b": [num(z) for z in b],
                       "out": record(*call(utils.calc_derived_curve_value, a, b, "ETB"))})
    ctx.judge("TV_Tost", events, key=lambda e, c: e.get("where", "etb") + ":" + c.split(" ")[0])
