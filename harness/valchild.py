"""Runs plot validations as an unprivileged user inside a scratch directory of that user's.

usage: valchild.py REPO SCRATCH < scenarios.json > events.json
The code under test deletes files, so privileges are dropped for good before it is called."""
import contextlib, datetime, hashlib, io, json, os, re, sys, time

NOBODY = 65534
OUT = {"xml": "out/xml", "plots": "out/plots", "data": "out/data", "scripts": "out/scripts"}
OTHER = {"input": "in", "first": "orig", "beside": "out", "home": "mv", "stage": "mv/stage", "base": ".", "near": "out/plots_old"}
TAGS = ["plot_file", "data_file", "r_file", "plots", "data", "scripts", "r_tmpl", "r_work", "user", "password", "title"]
BATCH = r"""#!{python} -SE
import json, os, re, shutil, sys
text = open(sys.argv[1]).read()
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {{t: (re.search("<%s>(.*?)</%s>" % (t, t), text) or [None, "absent"])[1] for t in {tags!r}}}
with open(os.path.join(home, "log"), "a") as f:
    f.write(json.dumps(dict(got, xml=os.path.basename(sys.argv[1]))) + "\n")
stage = os.path.join(home, "stage", got["plot_file"])
if os.path.exists(stage + ".fail"):
    sys.exit(3)
if os.path.exists(stage):
    shutil.copy(stage, os.path.join(got["plots"], got["plot_file"]))
for d, n in json.load(open(stage + ".json")):
    with open(os.path.join(got[d], n), "w") as f:
        f.write("made by the batch " + n)
"""
XML = """<plot_spec><connection><user>u0</user><password>p0</password></connection><folders><r_tmpl>/r/tmpl</r_tmpl><r_work>/r/work</r_work>
<plots>{plots}</plots><data>/r/data</data><scripts>/r/scripts</scripts></folders><plot><title>{title}</title><data_file>{stem}.data</data_file>
<plot_file>{stem}{pext}</plot_file><r_file>{stem}.R</r_file></plot></plot_spec>
"""


def picture(kind, seed):
    import numpy as np
    a = np.random.RandomState(seed).randint(0, 255, (12, 14, 3)).astype("uint8")
    if kind == "other":
        a[3:6, 4:9] = 255 - a[3:6, 4:9]
    if kind == "size":
        a = np.concatenate([a, a], axis=0)
    return a


def put(path, kind, seed):
    import cv2
    if kind == "bad":
        with open(path, "w") as f:
            f.write("no image")
    elif kind != "none":
        cv2.imwrite(path, picture(kind, seed))


def stamp(day, second):
    """time of a second of a day, counted from the reference day, in local time"""
    d = datetime.date(2024, 3, 1) + datetime.timedelta(day)
    return time.mktime((d.year, d.month, d.day, second // 3600, second // 60 % 60, second % 60, 0, 0, -1))


def listing(base):
    got = []
    for d, rel in list(OUT.items()) + list(OTHER.items()):
        for n in sorted(os.listdir(os.path.join(base, rel))):
            p = os.path.join(base, rel, n)
            if os.path.isfile(p) and not (d == "home" and n == "log"):
                with open(p, "rb") as f:
                    got.append({"dir": d, "name": n, "content": hashlib.sha1(f.read()).hexdigest()[:12]})
            elif d in OUT:
                got.append({"dir": d, "name": n + "/", "content": ""})
    return got


def outcome(text):
    t = text.lower()
    return "missing" if "exist" in t else "identical" if "identical" in t else "different" if "different" in t else "other"


def scenario(mod, base, sc):
    """a world and the runs on it"""
    events = []
    for rel in list(OUT.values()) + list(OTHER.values()) + ["mv/bin"]:
        os.makedirs(os.path.join(base, rel), exist_ok=True)
    batch = os.path.join(base, "mv/bin/mv_batch.sh")
    with open(batch, "w") as f:
        f.write(BATCH.format(python=sys.executable, tags=TAGS))
    os.chmod(batch, 0o755)
    for d, n in sc["strangers"]:
        with open(os.path.join(base, (OUT | OTHER)[d], n), "w") as f:
            f.write("stranger " + n)
    slash = "/" if sc["slash"] else ""
    path = lambda rel: os.path.join(base, rel) + slash
    for run in sc["runs"]:
        for d in ("in", "orig", "mv/stage"):                   # the world moves on between runs
            for n in os.listdir(os.path.join(base, d)):
                os.unlink(os.path.join(base, d, n))
        conf = []
        for x in run["conf"]:
            put(os.path.join(base, "orig", x["plot"] + x["pext"]), x["orig"] if x["orig"] != "image" else "same", x["seed"])
            staged = os.path.join(base, "mv/stage", x["plot"] + "_py" + x["pext"])
            put(staged, x["new"], x["seed"])
            if x["fail"]:
                open(staged + ".fail", "w").close()
            with open(staged + ".json", "w") as f:
                json.dump([[e["dir"], e["name"]] for e in x["extra"]], f)
            p = os.path.join(base, "in", x["name"] + x["ext"])
            with open(p, "w") as f:
                f.write(XML.format(plots=os.path.join(base, "orig"), title="a plot", stem=x["plot"], pext=x["pext"]))
            t = stamp(x["day"], x["second"]) if not run["default"] else stamp((datetime.date.today() - datetime.date(2024, 3, 1)).days + x["day"], x["second"])
            os.utime(p, (t, t))
            conf.append({k: x[k] for k in ("name", "ext", "day", "plot", "pext", "orig", "new", "extra")})
        conf.sort(key=lambda x: x["name"] + x["ext"])
        params = {"input_xml_dir": path("in"), "output_xml_dir": path("out/xml"), "output_plots_dir": path("out/plots"),
                  "output_data_dir": path("out/data"), "output_scripts_dir": path("out/scripts"), "mv_home": path("mv"),
                  "db_user": "u1", "db_pass": "p1"}
        lo, hi = run["lo"], run["hi"]
        today = datetime.date.today()
        text = lambda n: (datetime.date(2024, 3, 1) + datetime.timedelta(n)).isoformat()
        if not run["default"]:
            params["start_date"], params["end_date"] = text(lo), text(hi)
            if run["asdate"]:
                params["start_date"], params["end_date"] = (datetime.date.fromisoformat(params[k]) for k in ("start_date", "end_date"))
        want = {"plots": params["output_plots_dir"], "data": params["output_data_dir"], "scripts": params["output_scripts_dir"],
                "r_tmpl": os.path.join(base, "mv/R_tmpl"), "r_work": os.path.join(base, "mv/R_work"), "user": "u1", "password": "p1", "title": "a plot"}
        log = os.path.join(base, "mv/log")
        if os.path.exists(log):
            os.unlink(log)
        before = listing(base)
        said = io.StringIO()
        err, got = "", []
        with contextlib.redirect_stdout(said):
            try:
                if run["op"] == "run":
                    mod.main(params)
                else:
                    got = [os.path.relpath(p, os.path.join(base, "in")) for p in mod.get_test_xml(params)]
            except BaseException as e:
                err = "exc:" + type(e).__name__
        if run["default"] and datetime.date.today() != today:
            break                                                # midnight passed
        e = {"op": run["op"], "lo": lo, "hi": hi, "conf": conf, "err": err}
        if run["op"] == "run":
            lines = []
            for ln in said.getvalue().splitlines():
                m = re.match(r"(SUCCESS|ERROR):? +For (\S+)(.*)$", ln)
                if m:
                    o = outcome(m[3])
                    if m[1] == "ERROR" and o != "different" or m[1] == "SUCCESS" and o == "different":
                        o = "error"
                    if m[1] == "ERROR" and " : " in m[3]:
                        o = "error"
                    lines.append([m[2], o])
            ran = []
            if os.path.exists(log):
                with open(log) as f:
                    ran = [json.loads(x) for x in f]
            norm = lambda v: v.rstrip("/") if v.startswith("/") else v
            ran = [{k: norm(v) for k, v in r.items()} for r in ran]
            e |= {"before": before, "after": listing(base), "lines": lines, "ran": ran, "want": {k: norm(v) for k, v in want.items()}}
        else:
            e["got"] = got
        events.append(e)
    return events


def main():
    repo, scratch = sys.argv[1:]
    sys.dont_write_bytecode = True
    sys.path.insert(0, repo)
    import cv2, numpy                                            # noqa: F401  read while still allowed to
    from skimage.metrics import structural_similarity
    structural_similarity(numpy.zeros((8, 8)), numpy.zeros((8, 8)), full=True, data_range=1)
    import metcalcpy.validate_mv_python as mod
    if not mod.__file__.startswith(os.path.join(repo, "")):
        sys.exit("wrong module " + mod.__file__)
    todo = json.load(sys.stdin)
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)
    os.chdir(scratch)
    if os.geteuid() == 0 or os.access("/root", os.W_OK) or os.access(repo, os.W_OK):
        sys.exit("still privileged")
    events = []
    for k, sc in enumerate(todo):
        base = os.path.join(scratch, f"w{k}")
        os.makedirs(base)
        events += scenario(mod, base, sc)
    json.dump(events, sys.stdout)


main()
