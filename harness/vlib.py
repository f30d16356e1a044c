"""Common machinery of the checks: TLC runs, recording, judging, evidence, verdicts.

All verdicts come from TLC: `Ctx.model` explores a model (its invariants) and yields the cases it emitted,
`Ctx.judge` has TLC classify recorded events of the implementation.  Python only drives and records."""
import json, math, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback, contextlib
from concurrent.futures import ThreadPoolExecutor
from decimal import Decimal
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
CLASSES = os.path.join(VERIF, "build", "classes")
SPECS = os.path.join(VERIF, "specs")
KNOWN = os.path.join(VERIF, "known-findings.txt")
SHARDS = int(os.environ.get("VERIF_SHARDS", "4"))


class MachineryError(Exception):
    pass


def setup_repo():
    """make /repo's working tree the imported metcalcpy"""
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import metcalcpy
    if not os.path.abspath(metcalcpy.__file__).startswith(os.path.join(REPO, "")):
        raise MachineryError("metcalcpy imported from " + metcalcpy.__file__)
    import logging
    logging.disable(logging.CRITICAL)


def compile_java():
    src = os.path.join(VERIF, "java", "Rat.java")
    out = os.path.join(CLASSES, "Rat.class")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return
    os.makedirs(CLASSES, exist_ok=True)
    subprocess.run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", CLASSES, src], check=True)


# ---------------------------------------------------------------------------------------------- encoding
def num(x):
    """exact decimal text of a number for the spec; 'none', 'nan', 'inf' otherwise"""
    if x is None:
        return "none"
    if isinstance(x, str):
        return x
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, Fraction):
        return f"{x.numerator}/{x.denominator}" if x.denominator != 1 else str(x.numerator)
    try:
        if hasattr(x, "item") and getattr(x, "size", 1) == 1:
            x = x.item()
        if x is None:
            return "none"
        if isinstance(x, complex):
            return "complex"
        f = float(x)
    except Exception:
        return "other:" + type(x).__name__
    if math.isnan(f):
        return "nan"
    if math.isinf(f):
        return "inf" if f > 0 else "-inf"
    if f == int(f) and abs(f) < 1e18:
        return str(int(f))
    return str(Decimal(repr(f)))


class Timeout(BaseException):
    pass


@contextlib.contextmanager
def time_limit(seconds):
    def handler(signum, frame):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def call(fn, *a, limit=20, **k):
    """(result, None) or (None, 'exc:Type'); printed output swallowed"""
    try:
        with time_limit(limit), contextlib.redirect_stdout(None), contextlib.redirect_stderr(None):
            return fn(*a, **k), None
    except Timeout:
        return None, "exc:Timeout"
    except SystemExit:
        return None, "exc:SystemExit"
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # noqa
        if os.environ.get("VERIF_TB"):
            traceback.print_exc()
        return None, "exc:" + type(e).__name__


def callnum(fn, *a, **k):
    r, e = call(fn, *a, **k)
    return e if e else num(r)


# ---------------------------------------------------------------------------------------------- TLC
def run_tlc(module, cfg, env=None, workers=1, timeout=800, simulate=None, xmx="3g"):
    compile_java()
    md = tempfile.mkdtemp(prefix="tlc")
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + xmx, "-Xss64m", "-Djava.io.tmpdir=" + md, "-cp",
           ":".join([CLASSES, TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]),
           "tlc2.TLC", "-metadir", md, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd.append(module)
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    out = "\n".join(l for l in p.stdout.splitlines() if not l.startswith(("Loading ", "Parsing file", "Semantic processing", "Linting of")))
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    gen, dist = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
    return p.returncode, out, gen, dist


def tagged(out, tag):
    """payloads of PrintT("<tag>" \\o json) lines"""
    pre = '"' + tag
    res = []
    for l in out.splitlines():
        if l.startswith(pre):
            res.append(json.loads(l)[len(tag):])
    return res


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples = []
        self.fails = []           # (key, what, payload)
        self.notes = {}
        self.tmp = tempfile.mkdtemp(prefix="vf" + pid)
        self.thorough = self.tier != "quick"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- model part
    def model(self, module, cfg=None, consts=None, workers=2, env=None, timeout=800, expect_cases=True):
        """explore a model exhaustively; its invariants must hold; returns the emitted cases"""
        cfgf = os.path.join(SPECS, (cfg or module) + ".cfg")
        if consts:
            txt = open(cfgf).read()
            for k, v in consts.items():
                txt, n = re.subn(rf"(?m)^(\s*{k}\s*=).*$", rf"\1 {v}", txt)
                if n != 1:
                    raise MachineryError(f"constant {k} not in {cfgf}")
            cfgf = os.path.join(self.tmp, module + ".cfg")
            with open(cfgf, "w") as f:
                f.write(txt)
        rc, out, gen, dist = run_tlc(module, cfgf, workers=workers, env=env, timeout=timeout)
        if rc != 0:
            sys.stderr.write(out[-int(os.environ.get("VERIF_TAIL", "2500")):] + "\n")
            raise MachineryError(f"{module}: TLC exit {rc} (the specification breaks its own invariants, or does not run)")
        cases = [json.loads(c) for c in tagged(out, "CASE")]
        if expect_cases and not cases:
            raise MachineryError(f"{module}: no cases emitted")
        self.states += dist
        self.transitions += gen
        self.notes.setdefault("models", []).append({"module": module, "distinct": dist, "generated": gen, "cases": len(cases)})
        cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
        return cases

    # -- conformance part
    def judge(self, module, events, key=None, keep=2):
        """TLC classifies every event; records failures as (key, clause, event)"""
        if not events:
            raise MachineryError(f"{module}: no events recorded")
        n = max(1, min(SHARDS, len(events) // 40 + 1))
        shards = [events[i::n] for i in range(n)]
        cfgf = os.path.join(SPECS, "TV.cfg")

        def one(k):
            path = os.path.join(self.tmp, f"{module}-{len(self.notes)}-{k}-{time.time_ns()}.ndjson")
            with open(path, "w") as f:
                for e in shards[k]:
                    f.write(json.dumps(e) + "\n")
            rc, out, gen, dist = run_tlc(module, cfgf, env={"TRACE": path})
            done = tagged(out, "DONE")
            if rc != 0 or not done or int(done[0]) != len(shards[k]):
                sys.stderr.write(out[-int(os.environ.get("VERIF_TAIL", "2500")):] + "\n")
                raise MachineryError(f"{module}: TLC exit {rc} on a recorded trace")
            os.unlink(path)
            return [json.loads(x) for x in tagged(out, "FAIL")], gen, dist

        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(one, range(n)))
        bad = []
        for k, (fl, gen, dist) in enumerate(res):
            self.states += dist
            self.transitions += gen
            for f in fl:
                e = shards[k][f["i"] - 1]
                for c in sorted(map(str, f["clauses"])):
                    kk = key(e, c) if key else f"{e.get('op', module)}:{c.split(' ')[0]}"
                    bad.append((kk, c, e))
        self.validated += len(events)
        self.notes.setdefault("judged", []).append({"module": module, "events": len(events), "failing": len(bad)})
        for e in events[:keep] + events[-1:]:
            s = json.dumps(e)
            self.samples.append(json.loads(s) if len(s) < 1500 else s[:1500])
        self.fails += bad
        return bad

    # -- outcome
    def finish(self, extra=None, exhaustive=False):
        known = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == self.pid:
                    known[m.group(2)] = m.group(3)
        rep = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rep, exist_ok=True)
        for f in os.listdir(rep):
            if f.startswith(self.pid + "-"):
                os.unlink(os.path.join(rep, f))
        seen_known, viol = {}, {}
        for k, c, e in self.fails:
            if k in known:
                seen_known.setdefault(k, (c, e))
            else:
                viol.setdefault(k, (c, e))
        for k, (c, e) in sorted(seen_known.items()):
            print(f"KNOWN-FINDING: property={self.pid} {known[k]}")
        for n, (k, (c, e)) in enumerate(sorted(viol.items())):
            path = os.path.join(rep, f"{self.pid}-{n}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "key": k, "clause": c, "event": e, "seed": self.seed}, f, indent=1)
            if n < 60:
                print(f"VIOLATION property={self.pid} replay={path}")
                print(f"   {k}: {c[:300]}")
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
               "samples": self.samples[:6], "exhaustive": exhaustive, "detail": self.notes}
        if extra:
            cov.update(extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "violations": len(viol), "wall_s": round(time.time() - self.t0, 2)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return 1 if viol else 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
