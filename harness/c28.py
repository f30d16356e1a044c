"""C28: environment variables in configurations, over histories of environment changes and reads."""
import os
from vlib import num, call

TEXTS = ["${VFA}", "a${VFA}/${VFB}", "${VFA}${VFA}", "$VFA", "${VFA", "${${VFA}}", "12", "${VF-A}", "${VFC}", "1.5", "true", "plain text",
         "/d/${VFB}", "${VFB} and ${VFA}", "x${VF_1}y", "${}", "2020-01-01", "null", "${VFA}:${VFB}", "0${VFA}", "-${VFB}", "no", "${VFB}${VFA}${VFB}"]
NAMES = ["VFA", "VFB", "VFC", "VF_1", "VFAB", "vfa", "_VF"]
VALUES = ["x", "", "${VFB}", "${VFA}", "1", "a b", "\\1", "\\g<0>", "$", "{VFA}", "VFA", "a:b", "~"]


def pieces(rng):
    """a text of references and literals that any YAML style can carry"""
    out = rng.choice(["", "a", "/", "x_"])
    for _ in range(rng.randint(1, 7)):
        out += "${" + rng.choice(NAMES) + "}" if rng.random() < .6 else rng.choice(["a", "/", "-", "_", "x1", ".", "$", "{", "}", "$VFA", "${", " b", "7"])
    return "a" + out if out[0] in "-{}. 7$_" and not out.startswith("${") else out


def typed(v):
    if isinstance(v, str):
        return "str:" + v
    if v is None:
        return "null:"
    return type(v).__name__ + ":" + str(v)


def doc(rng, texts, tags, depth=2):
    """(yaml text lines, leaves): a nested document of leaves in random styles"""
    leaves = []

    def scalar(path):
        t = pieces(rng) if rng.random() < .5 else rng.choice(texts)
        style = rng.choice(["plain", "plain", "quoted", "tagged"])
        tag = rng.choice(tags) if style == "tagged" else ""
        if style == "plain":
            y = t
        elif style == "quoted" or rng.random() < .5:
            y = "'" + t + "'" if rng.random() < .6 else '"' + t + '"'
        else:
            y = t
        if style == "tagged":
            y = tag + " " + y
        leaves.append({"path": path, "style": style, "tag": tag, "text": t, "native": ""})
        return y

    def node(path, d, ind):
        kind = rng.choice(["map", "list", "flow"]) if d > 0 else "scalar"
        pad = "  " * ind
        n = rng.randint(1, 3)
        if kind == "scalar":
            return [scalar(path)], True
        if kind == "flow":
            return ["[" + ", ".join("k" if rng.random() < .3 and not leaves.append({"path": f"{path}/{i}", "style": "plain", "tag": "", "text": "k", "native": ""})
                                    else quoted(f"{path}/{i}") for i in range(n)) + "]"], True
        out = []
        for i in range(n):
            head = f"{pad}k{i}:" if kind == "map" else f"{pad}-"
            sub, inline = node(f"{path}/" + (f"k{i}" if kind == "map" else str(i)), d - 1, ind + 1)
            if inline:
                out.append(head + " " + sub[0])
            else:
                out.append(head)
                out += sub
        return out, False

    def quoted(path):
        t = pieces(rng) if rng.random() < .5 else rng.choice(texts)
        leaves.append({"path": path, "style": "quoted", "tag": "", "text": t, "native": ""})
        return "'" + t + "'"

    lines = []
    for i in range(rng.randint(1, 4)):
        sub, inline = node(f"/t{i}", rng.randint(0, depth), 1)
        lines += [f"t{i}: {sub[0]}"] if inline else [f"t{i}:"] + sub
    return "\n".join(lines) + "\n", leaves


def native(text):
    """what YAML alone reads for a plain scalar, through a loader of our own"""
    import yaml
    class L(yaml.SafeLoader):
        pass
    L.yaml_implicit_resolvers = {k: [r for r in v if r[0].startswith("tag:yaml.org")] for k, v in yaml.SafeLoader.yaml_implicit_resolvers.items()}
    return typed(yaml.load(text, Loader=L))


def flatten(v, path=""):
    if isinstance(v, dict):
        return [x for k, w in v.items() for x in flatten(w, f"{path}/{k}")]
    if isinstance(v, list):
        return [x for k, w in enumerate(v) for x in flatten(w, f"{path}/{k}")]
    return [{"path": path, "value": typed(v)}]


def play(ctx, rng, hist, events, cache):
    """one history in this process; the environment is restored afterwards"""
    import yaml
    from metcalcpy.util.read_env_vars_in_config import parse_config
    saved = {n: os.environ.pop(n, None) for n in NAMES}
    env = {}
    try:
        for step in hist:
            if step["do"] == "set":
                env[step["name"]] = os.environ[step["name"]] = step["value"]
            elif step["do"] == "unset":
                env.pop(step["name"], None)
                os.environ.pop(step["name"], None)
            else:
                kind = "env" if step["do"] == "read" else "plain"
                tag = step["name"]
                tags = [tag] * 6 + ["!ENV", "!CFG", "!OTHER"] if kind == "env" and rng.random() < .3 else [tag or "!ENV"]
                text, leaves = doc(rng, TEXTS, tags)
                for l in leaves:
                    if l["text"] not in cache:
                        cache[l["text"]] = native(l["text"])
                    l["native"] = cache[l["text"]] if l["style"] == "plain" else "str:" + l["text"]
                if kind == "env":
                    args = {} if tag == "!ENV" and rng.random() < .5 else {"tag": tag}
                    if rng.random() < .5:
                        p = os.path.join(ctx.tmp, "c.yaml")
                        with open(p, "w") as f:
                            f.write(text)
                        res, err = call(parse_config, p, **args) if rng.random() < .5 else call(parse_config, path=p, **args)
                    else:
                        res, err = call(parse_config, data=text, **args)
                else:
                    res, err = call(yaml.safe_load, text)
                events.append({"op": kind, "kind": kind, "tag": tag, "env": [{"name": n, "value": v} for n, v in env.items()], "doc": leaves, "text": text,
                               "err": err or "", "out": [] if err else flatten(res)})
    finally:
        for n, v in saved.items():
            if v is None:
                os.environ.pop(n, None)
            else:
                os.environ[n] = v


def run(ctx):
    rng = ctx.rng
    cache = {}
    ev = []
    cases = ctx.model("MC_EnvConf", consts={"Depth": str(ctx.scale(4, 5))}, timeout=3000)
    for h in rng.sample(cases, min(len(cases), ctx.scale(500, 5000))):
        play(ctx, rng, h, ev, cache)
    for _ in range(ctx.scale(150, 2000)):
        h, setn = [], set()
        for _ in range(rng.randint(4, 10)):
            r = rng.random()
            if r < .4:
                n = rng.choice(NAMES)
                h.append({"do": "set", "name": n, "value": rng.choice(VALUES)})
                setn.add(n)
            elif r < .5 and setn:
                h.append({"do": "unset", "name": rng.choice(sorted(setn)), "value": ""})
            elif r < .85:
                h.append({"do": "read", "name": rng.choice(["!ENV", "!ENV", "!CFG"]), "value": ""})
            else:
                h.append({"do": "plain", "name": "", "value": ""})
        play(ctx, rng, h, ev, cache)
    ctx.judge("TV_EnvConf", ev)
