"""C30: plot validation; the code under test runs as an unprivileged user on a scratch directory (valchild.py)."""
import json, os, shutil, subprocess, sys, tempfile
from vlib import MachineryError, REPO

STEMS = [["plot1", "plot10"], ["plot1", "plot10", "plot"], ["plot_2020.01.15", "plot_2020.01.16", "plot_2020"], ["a[1]", "a1", "a"],
         ["p", "p_1", "p_12"], ["x*y", "xzy"]]
ZONES = ["UTC0", "WST8", "EST-11", "UTC0"]
STATES = [(o, n) for o in ("none", "image", "bad") for n in ("none", "same", "other", "size", "bad") if o == "image" or n not in ("same", "size")]


def conf(rng, stem, orig, new, day, ext=".xml", name=None, pext=None):
    fail = new == "none" and rng.random() < .5
    return {"name": name or stem, "ext": ext, "day": day, "second": rng.choice([0, 86399, rng.randrange(86400)]), "plot": stem,
            "pext": pext or ".png", "orig": orig, "new": new, "seed": rng.randrange(1000), "fail": fail,
            "extra": [] if fail else [{"dir": "data", "name": stem + "_py.data"}, {"dir": "scripts", "name": stem + "_py.R"}]
            + ([{"dir": "data", "name": stem + "_py.points1"}] if rng.random() < .5 else [])}


def strangers(rng):
    out = [["xml", "old_py.xml"], ["plots", "old_py.png"], ["data", "plot1_py.data"], ["scripts", "plot10_py.R"],
           ["near", "plot1_py.png"], ["beside", "plotsplot1_py.png"], ["beside", "xmlplot1_py.xml"], ["beside", "plot1_py.data"],
           ["base", "plot1_py.R"], ["base", "plot1.png"], ["home", "plot1_py.data"]]
    return [s for s in out if rng.random() < .7]


def random_run(rng, op):
    stems = rng.choice(STEMS)
    default = rng.random() < .2
    lo = -1 if default else rng.randint(-3, 3)
    hi = 0 if default else lo + rng.choice([0, 0, 1, 2, -1])
    xs = []
    for k, s in enumerate(stems):
        o, n = rng.choice(STATES)
        day = rng.choice([lo - 1, lo, lo, hi, hi, hi + 1])
        name = rng.choice([s, s, f"c{9 - k}", f"c.{k}"])
        if any(x["name"] == name for x in xs):
            name = f"d{k}"
        xs.append(conf(rng, s, o, n, day, rng.choice([".xml"] * 5 + [".XML", ".xml~", ".txt", ".xmlx", ""]), name, rng.choice([".png", ".png", ".bmp"])))
    return {"op": op, "lo": lo, "hi": hi, "default": default, "asdate": rng.random() < .3, "conf": xs}


def run(ctx):
    rng = ctx.rng
    todo = []
    one = ctx.model("MC_Validate")
    rng.shuffle(one)
    runs = [{"op": "run", "lo": 0, "hi": 1, "default": False, "asdate": False,
             "conf": [conf(rng, "plot1", r["s1"]["orig"], r["s1"]["new"], 0), conf(rng, "plot10", r["s2"]["orig"], r["s2"]["new"], r["d2"])]}
            for h in one for r in h]
    for k in range(0, len(runs), 4):                             # histories of runs on one world
        todo.append({"slash": rng.random() < .5, "strangers": strangers(rng), "runs": runs[k:k + 4]})
    for _ in range(ctx.scale(50, 600)):
        todo.append({"slash": rng.random() < .5, "strangers": strangers(rng), "runs": [random_run(rng, "run") for _ in range(rng.randint(1, 3))]})
    for _ in range(ctx.scale(30, 300)):
        todo.append({"slash": rng.random() < .5, "strangers": [], "runs": [random_run(rng, "select") for _ in range(6)]})
    parts = [todo[k::4] for k in range(4)]
    scratch = tempfile.mkdtemp(prefix="vfval")
    try:
        os.chmod(scratch, 0o711)
        procs = []
        for k, part in enumerate(parts):
            home = os.path.join(scratch, str(k))
            os.mkdir(home)
            os.chown(home, 65534, 65534)
            p = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "valchild.py"), REPO, home],
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd="/",
                                 env={"PATH": "/usr/bin:/bin", "HOME": home, "OPENCV_LOG_LEVEL": "SILENT", "TMPDIR": home, "TZ": ZONES[k]})
            with open(os.path.join(ctx.tmp, f"in{k}.json"), "w") as f:
                json.dump(part, f)
            procs.append(p)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            outs = list(ex.map(lambda pk: pk[0].communicate(json.dumps(pk[1]), timeout=ctx.scale(500, 5000)), zip(procs, parts)))
        ev = []
        for p, (o, err) in zip(procs, outs):
            if p.returncode:
                raise MachineryError("validation child failed: " + err[-1500:])
            ev += json.loads(o)
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)
    ctx.judge("TV_Validate", ev)
