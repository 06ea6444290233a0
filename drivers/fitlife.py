"""Replays the histories of FitLife on real fitters."""
import hashlib

from common import *  # noqa
from fitter import CLASSES, World, quiet

MANY = 500


def digest(*a):
    h = hashlib.sha1()
    for x in a:
        x = np.ascontiguousarray(np.asarray(x, dtype=np.float64))
        h.update(str(x.shape).encode() + x.tobytes())
    return h.hexdigest()[:12]


class Life:
    def __init__(self, kind, classes=CLASSES, shifted=("rgb",), close=False):
        self.w = w = World(kind, classes=classes)
        self.shifted = shifted
        shape = w.euler.shape
        self.poses = [(w.euler, w.trans), (w.euler * 0.5 + 0.3, w.trans - 0.0625)]
        self.backs = [w.bg, 1 - w.bg] if kind != "depth" else [(w.maxdepth, w.scale), (w.maxdepth * 0.75, w.scale * 1.25)]
        if close:  # the second of everything is nearly the first
            self.poses[1] = beside(w.euler), beside(w.trans)
            self.backs[1] = beside(w.bg) if kind != "depth" else (w.maxdepth + 2.0**-25, w.scale + 2.0**-27)
            w.images[1] = [beside(i) for i in w.images[0]] if isinstance(w.images[0], list) else beside(w.images[0])
        assert self.poses[1][0].shape == shape
        self.table = {}

    def back(self, x, k):
        b = self.backs[k - 1]
        if self.w.kind == "depth":
            x.set_max_depth(b[0])
            x.set_depth_scale(b[1])
        else:
            x.set_background_color(b.copy())

    def pose(self, x, k):
        e, t = self.poses[k - 1]
        x.set_mesh_transform_init(euler=e.copy(), translation=t.copy())

    def options(self, x, k):
        """what is fitted, and how fast"""
        w = self.w
        a, b, lights, color = (w.inertia, w.damping, w.lights, w.colored) if k == 1 else (1 - w.inertia / 2, w.damping / 2, not w.lights, not w.colored)
        x.inertia, x.damping = a, b
        if w.kind != "depth":
            x.update_lights, x.update_color = lights, color

    def make(self, run):
        w = self.w
        saved = w.euler, w.trans
        w.euler, w.trans = self.poses[run["pose"] - 1]
        x = w.make(run["image"] - 1)
        w.euler, w.trans = saved
        # the camera depends on the pose the fitter was made with, which is the first one
        if w.kind in self.shifted:
            x = w.make(run["image"] - 1)
            self.pose(x, run["pose"])
            x.reset()
        self.back(x, run["back"])
        self.options(x, run["options"])
        return x

    def do(self, x, o, keep=lambda a: a):
        op, k = o["op"], o["k"]
        if op in ("step", "many"):
            for _ in range(MANY if op == "many" else 1):
                e, img, diff = quiet(x.step)
            for a in [img, diff]:
                for b in (a if isinstance(a, list) else [a]):
                    keep(b)
            return digest([e], *(img if isinstance(img, list) else [img]), *(diff if isinstance(diff, list) else [diff]))
        if op == "reset":
            x.reset()
        elif op == "image":
            im = self.w.set_image(x, k - 1)
            for a in im:
                keep(a)
        elif op == "back":
            self.back(x, k)
        elif op == "options":
            self.options(x, k)
        elif op == "pose":
            self.pose(x, k)
        return ""

    def params(self, x):
        s = self.w.state(x)
        return hashlib.sha1(json.dumps(s, sort_keys=True).encode()).hexdigest()[:12]

    def fresh(self, run):
        key = json.dumps(run, sort_keys=True)
        if key not in self.table:
            x = self.make(run)
            out = ""
            for e in run["events"]:
                out = self.do(x, e) or out
            self.table[key] = dict(run=run, state=self.params(x), out=out)

    def play(self, hist):
        attempt({"kind": self.w.kind, "history": [(o["op"], o["k"]) for o in hist]})
        x = self.make(dict(pose=1, image=1, back=1, options=1))
        kept, steps = [], []

        def keep(a):
            kept.append((a, np.array(a, copy=True)))
            return a

        for o in hist:
            self.fresh(o["run"])
            status, out = guard(lambda: self.do(x, o, keep))
            steps.append(dict(op=dict(op=o["op"], k=o["k"]), status=status, out=out if status == "ok" else "", state=self.params(x),
                              kept=all(np.array_equal(a, b) for a, b in kept)))
        return steps


def main():
    with open(ARGS.input) as f:
        hists = json.load(f)
    if ARGS.family.startswith("torch"):
        from torchfit import TORCH

        lives = [Life(k, TORCH, ("depth", "rgb")) for k in ("depth", "rgb") * 2]
        out = [dict(world=n % len(lives) + 1, steps=lives[n % len(lives)].play(h)) for n, h in enumerate(hists)]
        return write(dict(tables=[list(w.table.values()) for w in lives], traces=out))
    if ARGS.family.startswith("options"):
        # each history with a fitter that starts with everything fitted and with one that starts without lights and colour
        lives = []
        for kind in ("rgb", "multi"):
            for on in (True, False):
                life = Life(kind)
                life.w.lights = life.w.colored = on
                life.w.default = on and RNG.random() < 0.5
                lives.append(life)
        out = [dict(world=k + 1, steps=lives[k].play(h)) for n, h in enumerate(hists) for k in ((0, 3) if n % 2 else (1, 2))]
        return write(dict(tables=[list(w.table.values()) for w in lives], traces=out))
    if ARGS.family.startswith("long"):
        lives = [Life("multi")]
    else:
        lives = [Life(k) for k in ["depth", "rgb", "multi"] * 2] + [Life(k, close=True) for k in ("depth", "rgb", "multi")]
    out = [dict(world=n % len(lives) + 1, steps=lives[n % len(lives)].play(h)) for n, h in enumerate(hists)]
    write(dict(tables=[list(w.table.values()) for w in lives], traces=out))


main()
