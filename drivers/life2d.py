"""Replays the histories of Life2D on real scenes."""
import hashlib

from raster import *  # noqa
from raster import Gen, scene2d, GR, SIG, NL


def arrays(x):
    return [v for v in x.__dict__.values() if isinstance(v, np.ndarray)]


def names(sc):
    return [k for k in ("faces", "faces_uv", "ij", "depths", "textured", "uv", "shade", "colors", "shaded", "edgeflags",
                        "texture", "background_image", "background_color") if getattr(sc, k) is not None]


def digest(*a):
    h = hashlib.sha1()
    for x in a:
        x = np.ascontiguousarray(np.asarray(x, dtype=np.float64))
        h.update(str(x.shape).encode() + x.tobytes())
    return h.hexdigest()[:12]


class World:
    def __init__(self, s, rng):
        self.s = s
        r = np.random.RandomState(rng.getrandbits(32))
        H, W, C = s["H"], s["W"], s["C"]
        self.sig = {1: 0.0, 2: 1.5}
        self.obs = r.randint(0, 9, (H, W, C)) / 2.0
        self.masked = s["masked"]  # nothing, all or nothing, or weights
        self.mask = dict(none=np.ones((H, W)), binary=(r.rand(H, W) < 0.7).astype(float), weights=r.randint(0, 9, (H, W)) / 4.0)[self.masked]
        self.adj = {"plain": {a: r.randint(-4, 5, (H, W, C)) / 2.0 for a in (1, 2)},
                    "error": {a: r.randint(-4, 5, (H, W)) / 2.0 for a in (1, 2)}}
        sc = scene2d(s)
        self.looks = {1: {k: np.array(getattr(sc, k), copy=True) for k in names(sc)}}
        other = {k: v.copy() for k, v in self.looks[1].items()}
        for k, v in other.items():
            if s["close"]:  # nearly the same scene
                if v.dtype == float:
                    v[...] = beside(v)
            elif k in ("ij", "uv"):
                v += r.randint(-3, 4, v.shape) / 16.0
            elif k == "edgeflags":
                v ^= r.rand(*v.shape) < 0.3
            elif v.dtype == float and k != "depths":
                v[...] = r.randint(1, 9, v.shape) / 8.0
            elif k == "depths":
                v += r.randint(0, 3, v.shape) / 4.0
            elif k == "faces":  # other faces have the same corners
                v[...] = np.roll(v, r.randint(3), axis=1)
        self.looks[2] = other
        self.proj = [r.randint(-3, 4, (2, getattr(sc, k).size)).astype(float) for k in ("ij", "colors", "shade", "uv", "texture")]

    def g(self, sc):
        out = []
        for p, k in zip(self.proj, ("ij_b", "colors_b", "shade_b", "uv_b", "texture_b")):
            out += [float(x) for x in p.dot(np.asarray(getattr(sc, k)).ravel())]
        return out

    def make(self, look):
        sc = scene2d(self.s)
        if look != 1:
            for k, v in self.looks[look].items():
                setattr(sc, k, v.copy())
        return sc

    @staticmethod
    def alter(sc, arrays, inplace):
        for k, v in arrays.items():
            a = getattr(sc, k)
            if inplace and a.flags.writeable:
                a[...] = v
            else:
                setattr(sc, k, v.copy())

    def table(self, look):
        tab = {}
        for kind in ("plain", "error"):
            tab[kind] = []
            for sg in (1, 2):
                adjs = []
                for a in (0, 1, 2):
                    sc = self.make(look)
                    if kind == "plain":
                        img, z = sc.render(self.sig[sg])
                        out, err = digest(img, z), ""
                        loss = np.sum(self.mask[:, :, None] * (img - self.obs) ** 2)
                        adj = 2 * (img - self.obs) * self.mask[:, :, None] if a == 0 else self.adj[kind][a]
                        sc.render_backward(adj.copy())
                    else:
                        img, z, e = sc.render_error(self.obs.copy(), self.sig[sg])
                        out, err = digest(img, z), digest(e)
                        loss = np.sum(self.mask * e)
                        sc.render_error_backward((self.mask if a == 0 else self.adj[kind][a]).copy())
                    adjs.append(nums(self.g(sc)))
                tab[kind].append(dict(out=out, err=err, adj=adjs, loss=num(loss)))
        return tab

    def options(self, o, arg):
        """what is as it is by default need not be said"""
        kw = dict(antialiase_error=o["kind"] == "error", clear_gradients=o["clear"], make_copies=o["copies"])
        if RNG.random() < 0.5:
            kw = {k: v for k, v in kw.items() if v != dict(antialiase_error=False, clear_gradients=True, make_copies=True)[k]}
        if self.masked != "none":
            kw["mask"] = arg(self.mask)
        elif RNG.random() < 0.5:
            kw["mask"] = None
        return kw

    def play(self, hist):
        sc = scene2d(self.s)
        before = {k: np.array(getattr(sc, k), copy=True) for k in names(sc)}
        kept = []
        steps = []
        look = 1
        attempt({"history": hist})
        for o in hist:
            st = dict(op=o, out="", err="", loss="0")
            args = []

            def arg(x):
                x = x.copy()
                args.append((x, x.copy()))
                return x

            sg = self.sig.get(o["sg"], 0.0)
            if o["op"] == "alter":
                status, res = guard(self.alter, sc, self.looks[o["sg"]], o["copies"])
                before = {k: np.array(v, copy=True) for k, v in self.looks[o["sg"]].items()}
                look = o["sg"]
            elif o["op"] == "render" and o["kind"] == "plain":
                status, res = guard(sc.render, sg)
            elif o["op"] == "render":
                status, res = guard(sc.render_error, arg(self.obs), sg)
            elif o["op"] == "backward" and o["kind"] == "plain":
                status, res = guard(sc.render_backward, arg(self.adj["plain"][o["adj"]]), make_copies=o["copies"])
            elif o["op"] == "backward":
                status, res = guard(sc.render_error_backward, arg(self.adj["error"][o["adj"]]), make_copies=o["copies"])
            elif o["op"] == "clear":
                status, res = guard(sc.clear_gradients)
            else:
                status, res = guard(sc.render_compare_and_backward, arg(self.obs), sg, **self.options(o, arg))
            if status == "ok" and o["op"] in ("render", "compare"):
                st["out"] = digest(res[0], res[1])
                if o["op"] == "render" and o["kind"] == "error":
                    st["err"] = digest(res[2])
                if o["op"] == "compare":
                    st["loss"] = num(res[3])
                    # without copies the backward pass may consume what it returns
                    if not o["copies"]:
                        st["out"] = self.tab[look - 1][o["kind"]][o["sg"] - 1]["out"]
            st["status"] = status
            st["g"] = nums(self.g(sc))
            st["inputs"] = all(np.array_equal(before[k], getattr(sc, k), equal_nan=True) for k in before)
            st["args"] = all(np.array_equal(a, b) for a, b in args)
            st["kept"] = all(np.array_equal(a, b) for k in kept for a, b in k)
            if status == "ok" and o["op"] in ("render", "compare"):
                kept = kept + [[(x, np.array(x, copy=True)) for x in res[:3]]]
            if not o["copies"] and status == "ok":  # the last rendering is consumed
                kept = kept[:-1]
            steps.append(st)
        return steps


def main():
    with open(ARGS.input) as f:
        hists = json.load(f)
    worlds = []
    for kind, kw in zip(RNG.sample(["none", "binary", "weights", "weights", "none", "binary"], 6), (dict(ptex=0.0, nt=2), dict(ptex=1.0, nt=2), dict(ptex=0.5, nt=3, mesh=True), dict(ptex=0.0, nt=2, bgkind="image", intcenter=False),
               dict(ptex=0.5, nt=3, strict=False), dict(ptex=0.5, nt=2, close=True))):
        while True:
            s = Gen(RNG, **dict(GR, C=RNG.choice([1, 3, 3, 5]), H=5, W=6, margin=1, sigma=F(0), orient=True, behind=False, pedge=1.0, clockwise=len(worlds) % 2 == 0, **dict(NL), **kw)).make()
            s["masked"] = kind
            s["close"] = kw.get("close", False)
            w = World(s, RNG)
            w.tab = [w.table(k) for k in (1, 2)]
            flat = [float(F(x)) for k in w.tab[0] for e in w.tab[0][k] for a in e["adj"] for x in a if x not in ("nan", "inf", "-inf")]
            if sum(1 for x in flat if x) > len(flat) // 4:
                break
        worlds.append(w)
    out = []
    for n, h in enumerate(hists):
        w = worlds[n % len(worlds)]
        out.append(dict(world=n % len(worlds) + 1, steps=w.play(h)))
    write(dict(tables=[w.tab for w in worlds], traces=out, tol="1/1000000000"))


main()
