"""C31: image comparison, over histories of requests."""
import hashlib, os
import numpy as np
from vlib import num, call

METHODS = {"difference": "difference_image", "threshold": "thresh_image", "marked1": "difference_in_image_1", "marked2": "difference_in_image_2"}


def picture(rng, h, w):
    kind = rng.choice(["flat", "noise", "shapes", "shapes", "steps"])
    a = np.full((h, w, 3), rng.randint(0, 255), np.uint8)
    if kind == "noise":
        a = np.array([[[rng.randint(0, 255) for _ in range(3)] for _ in range(w)] for _ in range(h)], np.uint8)
    elif kind == "steps":
        a[:, :, :] = (np.arange(w) * 255 // w).astype(np.uint8)[None, :, None]
    elif kind == "shapes":
        for _ in range(3):
            y, x = rng.randrange(h), rng.randrange(w)
            a[y:y + rng.randint(1, 6), x:x + rng.randint(1, 6)] = [rng.randint(0, 255) for _ in range(3)]
    return a


def change(rng, a):
    """same, or changed in one place, in colour only, in many places"""
    b = a.copy()
    h, w = a.shape[:2]
    kind = rng.choice(["same", "same", "pixel", "corner", "block", "blue", "other"])
    if kind == "pixel":
        y, x = rng.randrange(h), rng.randrange(w)
        b[y, x] = (b[y, x].astype(int) + rng.choice([1, 40, 128])) % 256
    elif kind == "corner":
        y, x = rng.choice([0, h - 1]), rng.choice([0, w - 1])
        b[y, x] = 255 - b[y, x]
    elif kind == "block":
        y, x = rng.randrange(h - 3), rng.randrange(w - 3)
        b[y:y + 4, x:x + 4] = [rng.randint(0, 255) for _ in range(3)]
    elif kind == "blue":
        y, x = rng.randrange(h), rng.randrange(w)
        b[y, x, 0] = int(b[y, x, 0]) + (1 if b[y, x, 0] < 255 else -1)     # may keep the brightness
    elif kind == "other":
        b = picture(rng, h, w)
    return b


def content(a):
    return hashlib.sha1(repr((a.shape, a.dtype.str)).encode() + np.ascontiguousarray(a).tobytes()).hexdigest()[:16]


class Asker:
    """one comparison object; shown images are recorded in place of opening windows"""
    def __init__(self, ctx, p1, p2):
        from metcalcpy.compare_images import CompareImages
        self.tmp, self.n = ctx.tmp, 0
        self.obj, self.err = call(CompareImages, p1, p2)

    def ask(self, do, product, wait=False):
        import cv2
        self.waited = []
        if self.err:
            return None, self.err
        if do == "save":
            self.n += 1
            path = os.path.join(self.tmp, f"o{self.n}.{'png' if self.n % 2 else 'bmp'}")
            _, err = call(getattr(self.obj, "save_" + METHODS[product]), path)
            if err:
                return None, err
            a = cv2.imread(path, cv2.IMREAD_UNCHANGED)
            if a is None:
                return None, "nofile"
            os.unlink(path)
            return a, ""
        got, old = [], (cv2.imshow, cv2.waitKey)
        cv2.imshow, cv2.waitKey = (lambda name, a: got.append(a.copy())), (lambda *k: self.waited.append(1) or -1)
        try:
            _, err = call(getattr(self.obj, "show_" + METHODS[product]), *([True] if wait else []))
        finally:
            cv2.imshow, cv2.waitKey = old
        if err:
            return None, err
        return (got[0], "") if len(got) == 1 else (None, "noshow")


def run(ctx):
    import cv2
    rng = ctx.rng
    ev = []
    p1, p2 = os.path.join(ctx.tmp, "a.png"), os.path.join(ctx.tmp, "b.png")
    flat = lambda a: [int(x) for x in a.ravel()]
    pix = lambda a: [[int(x) for x in p] for p in a.reshape(-1, 3)]
    hists = ctx.model("MC_Images", consts={"Depth": ctx.scale(3, 4)})
    rng.shuffle(hists)
    hists = hists[:ctx.scale(300, len(hists))]
    for k in range(0, len(hists), 6):
        h, w = rng.choice([7, 12, 16]), rng.choice([8, 12, 20])
        a = picture(rng, h, w)
        b = change(rng, a)
        cv2.imwrite(p1, a)
        cv2.imwrite(p2, b)
        first = {}
        shots = {}
        sim, err = None, ""
        for p in METHODS:
            one = Asker(ctx, p1, p2)
            shots[p], e = one.ask("save", p)
            err = err or e
            first[p] = content(shots[p]) if not e else e
            sim = None if one.err else call(one.obj.get_mssim)[0]
        ev.append({"op": "pair", "a": pix(a), "b": pix(b), "h": h, "w": w, "err": err, "similarity": num(sim)}
                  | ({} if err else {"difference": flat(shots["difference"]), "threshold": flat(shots["threshold"]),
                                     "marked1": pix(shots["marked1"]), "marked2": pix(shots["marked2"])}))
        for hist in hists[k:k + 6]:
            if rng.random() < .3:
                hist = hist + [{"do": rng.choice(["save", "show"]), "product": rng.choice(sorted(METHODS))} for _ in range(4)]
            one = Asker(ctx, p1, p2)
            steps = []
            for s in hist:
                wait = s["do"] == "show" and rng.random() < .5
                got, e = one.ask(s["do"], s["product"], wait)
                steps.append({"do": s["do"], "product": s["product"], "wait": wait, "waits": bool(one.waited), "err": e, "content": content(got) if not e else ""})
            ev.append({"op": "history", "steps": steps, "first": first})
    cv2.imwrite(p1, picture(rng, 12, 12))
    for why in ("missing", "text", "empty", "directory"):
        bad = os.path.join(ctx.tmp, "bad" + why + ".png")
        if why == "directory":
            os.makedirs(bad)
        elif why != "missing":
            with open(bad, "w") as f:
                f.write("not an image" if why == "text" else "")
        for pair in ((bad, p1), (p1, bad), (bad, bad)):
            ev.append({"op": "refused", "why": why, "err": Asker(ctx, *pair).err or ""})
    ctx.judge("TV_Images", ev)
