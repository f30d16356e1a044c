"""C25: forecast difficulty index and its piecewise linear taper."""
from fractions import Fraction
import numpy as np
from vlib import num, call

DEFAULT = {"x": ["3", "9", "12", "21"], "y": ["0", "1.5", "1.5", "0"], "left": "0", "right": "0"}
EPS = float(np.finfo(np.float32).eps)


def grid_event(rng, sig, mu, mem, thr, ref, under, knots=None):
    """arrays -> event; default factor and taper go through the public function"""
    from metcalcpy.calc_difficulty_index import forecast_difficulty, _difficulty_index
    from metcalcpy.piecewise_linear import PiecewiseLinear
    p, ap = DEFAULT, None
    if knots:
        p = {"x": [num(x) for x in knots[0]], "y": [num(y) for y in knots[1]], "left": num(knots[2]), "right": num(knots[3])}
        ap = PiecewiseLinear(knots[0], knots[1], left=knots[2], right=knots[3])
    elif under != .5:
        ap = PiecewiseLinear([3.0, 9.0, 12.0, 21.0], [0.0, 1.5, 1.5, 0.0], left=0.0, right=0.0)
    if under == .5:
        args = (sig, mu, thr, mem, ap) + (() if ref == EPS and rng.random() < .5 else (ref,))
        out, err = call(forecast_difficulty, *args)
    else:
        out, err = call(_difficulty_index, sig, mu, thr, mem, ap, ref, under)
    full = mu if isinstance(mu, np.ndarray) else np.full(sig.shape, mu)
    g = {"sigma": [num(x) for x in sig.ravel()], "mu": [num(x) for x in full.ravel()],
         "members": [[num(x) for x in mem[i, j]] for i in range(sig.shape[0]) for j in range(sig.shape[1])],
         "threshold": num(thr), "ref": num(ref), "under": num(under)}
    if not err and np.shape(out) != sig.shape:
        err = "shape"
    return {"op": "index", "g": g, "p": p, "err": err or "", "out": [] if err else [num(x) for x in np.ravel(out)]}


def knots(rng, bad=False):
    n = rng.choice([2, 3, 4, 6])
    xs = sorted(rng.sample(range(-10, 60), n))
    xs = [x / 2 for x in xs]
    ys = [rng.randint(-8, 8) / 4 for _ in xs]
    if bad:
        k = rng.choice(["few", "order", "length", "length"])
        if k == "few":
            xs, ys = xs[:1], ys[:1]
        elif k == "order":
            i = rng.randrange(n - 1)
            xs[i], xs[i + 1] = xs[i + 1], xs[i]
        elif rng.random() < .5:
            ys = ys + [1]
        else:
            ys = ys[:-1]
    return xs, ys


def taper_event(rng):
    from metcalcpy.piecewise_linear import PiecewiseLinear
    bad = rng.random() < .25
    xs, ys = knots(rng, bad)
    left, right = rng.choice([None, 0, -1.5]), rng.choice([None, 0, 2])
    kw = {k: v for k, v in (("left", left), ("right", right)) if v is not None}
    pts = [x for x in xs] + [xs[0] - .25, xs[-1] + .25, -100, 100] + [rng.randint(-60, 240) / 8 for _ in range(8)]
    rng.shuffle(pts)
    shaped = rng.choice([lambda a: a, np.array, lambda a: np.array(a).reshape(-1, 1)])(pts)
    form = rng.choice([list, np.array])
    out, err = call(lambda: PiecewiseLinear(form(xs), form(ys), **kw).values(shaped))
    refusal = "exc:IncompatibleLengths" if len(xs) < 2 or (len(xs) != len(ys) and xs == sorted(xs)) else "exc:UnsortedArray"
    return {"op": "taper", "p": {"x": [num(x) for x in xs], "y": [num(y) for y in ys], "left": "nan" if left is None else num(left),
                                 "right": "nan" if right is None else num(right)},
            "at": [num(x) for x in pts], "err": err or "", "refusal": refusal, "out": [] if err else [num(x) for x in np.ravel(out)]}


def run(ctx):
    rng = ctx.rng
    ev = []
    F = lambda x: float(Fraction(x))
    cases = ctx.model("MC_Difficulty")
    for c in rng.sample(cases, ctx.scale(300, len(cases))):
        sig, mu = np.array([[F(x) for x in c["sigma"]]]), np.array([[F(x) for x in c["mu"]]])
        mem = np.array([[[F(x) for x in m] for m in c["members"]]])
        ev.append(grid_event(rng, sig, mu, mem, F(c["threshold"]), EPS if c["ref"] != "3" else 3.0, F(c["under"])))
    for _ in range(ctx.scale(500, 5000)):
        ny, nx, n = rng.choice([1, 2, 3]), rng.choice([1, 2, 4]), rng.choice([1, 2, 5, 10])
        q = lambda lo, hi: rng.randint(lo * 8, hi * 8) / 8
        sig = np.array([[max(.125, q(0, 6)) for _ in range(nx)] for _ in range(ny)])
        mu = np.array([[max(.125, q(0, 25)) for _ in range(nx)] for _ in range(ny)])
        mem = np.array([[[q(0, 20) for _ in range(n)] for _ in range(nx)] for _ in range(ny)])
        thr = rng.choice([9.0, 5, q(0, 20), float(mem[0, 0, 0])])
        r = rng.random()
        if r < .06:
            sig[rng.randrange(ny), rng.randrange(nx)] = rng.choice([0.0, -1.0])
        under, ref = rng.choice([.5, .5, .5, .4, 0.0, 1.0, 0.25]), rng.choice([EPS, EPS, .5, 4.0, 10.0])
        if .06 < r < .1:
            under = rng.choice([-.1, 1.5])
        if .1 < r < .13:
            ref = 0.0
        kn = None
        if rng.random() < .5:
            xs, ys = knots(rng)
            kn = (xs, ys, rng.choice([0.0, 1.0, float("nan")]), rng.choice([0.0, -2.0]))
        if under not in (.5,) or rng.random() < .9:
            ev.append(grid_event(rng, sig, mu if rng.random() < .85 else float(mu[0, 0]), mem, thr, ref, under, kn))
    for _ in range(ctx.scale(500, 5000)):
        ev.append(taper_event(rng))
    ctx.judge("TV_Difficulty", ev)
