"""Scenes for the rasteriser, rendered by the real code, recorded for TraceRaster."""
from common import *  # noqa

from deodr.differentiable_renderer import Scene2D, renderScene

F = Fraction


def fl(a):
    return np.array([[float(x) for x in r] for r in a]) if len(a) else np.zeros((0, 2))


class Gen:
    """one random scene; `lattice` inputs are small dyadic numbers"""

    def __init__(self, rng, **kw):
        self.r = rng
        self.kw = kw
        self.lattice = kw.get("lattice", True)

    def opt(self, name, *choices):
        if name in self.kw:
            v = self.kw[name]
            return v(self.r) if callable(v) else v
        return self.r.choice(choices)

    def n(self, lo, hi, den):
        """a number in [lo, hi]"""
        if self.lattice:
            return F(self.r.randint(int(lo * den), int(hi * den)), den)
        return F(self.r.uniform(float(lo), float(hi)))

    def make(self):
        r = self.r
        H, W = self.opt("H", 3, 4, 5, 6, 7), self.opt("W", 3, 4, 5, 6, 7)
        C = self.opt("C", 1, 2, 3, 4)
        if "C" not in self.kw and r.random() < 0.15:
            C = r.choice([5, 6, 7, 8, 9])
        nt = self.opt("nt", 1, 2, 3, 4)
        margin = self.opt("margin", 2, 2, 6)
        den = self.opt("den", 1, 2, 4)
        if self.opt("mesh", False, False, True) and nt > 1:  # faces share vertices
            nv = nt + 2
            faces = []
            while len(faces) < nt:
                f = r.sample(range(nv), 3)
                if set(f) not in [set(g) for g in faces]:
                    faces.append(f)
        else:
            nv = 3 * nt
            faces = [[3 * k, 3 * k + 1, 3 * k + 2] for k in range(nt)]
        ij = [[self.n(-margin, W - 1 + margin, den), self.n(-margin, H - 1 + margin, den)] for _ in range(nv)]
        clockwise = self.opt("clockwise", False, True)
        culling = self.opt("culling", True, True, True, False)

        def area2(f):
            a, b, c = (ij[v] for v in f)
            return (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])

        if self.opt("orient", True, True, True, False):  # make faces front facing
            for f in faces:
                if (area2(f) > 0) != clockwise:
                    f[1], f[2] = f[2], f[1]
        persp = self.opt("persp", False, False, True)
        behind = self.opt("behind", False, False, False, True)
        depths = [self.n(1, 9, self.opt("zden", 1, 2)) for _ in range(nv)]
        if self.opt("flat", False, True):
            for f in faces:
                d = self.n(1, 9, 2)
                for v in f:
                    depths[v] = d
        scale = self.opt("zscale", 1, 1, 1, F(1, 16), F(1, 4), 32)
        depths = [d * scale for d in depths]
        if not persp and r.random() < 0.15:  # on the plane of the camera
            depths[r.randrange(nv)] = F(0)
        if behind:
            for v in r.sample(range(nv), max(1, nv // 4)):
                depths[v] = -depths[v]
        TW, TH = self.opt("TW", 2, 3, 4, 5), self.opt("TH", 2, 3, 4)
        ptex = self.opt("ptex", 0.0, 0.5, 1.0)
        textured = [r.random() < ptex for _ in faces]
        nuv = nt * 3 if r.random() < 0.5 else nt + 3
        uv = [[self.n(F(-3, 2), TW + F(1, 2), 8) + F(1, 16), self.n(F(-3, 2), TH + F(1, 2), 8) + F(1, 16)] for _ in range(nuv)]
        if self.opt("uvin", True, False):
            uv = [[min(max(a, F(1, 16)), TW - 1 - F(1, 16)), min(max(b, F(1, 16)), TH - 1 - F(1, 16))] for a, b in uv]
        elif r.random() < 0.15:  # far outside of the texture, all on the same side
            far = [r.choice([-1, 0, 1]) * r.choice([10**4, 2**31, 3 * 2**31, 2**34]) for _ in range(2)]
            uv = [[a + far[0], b + far[1]] for a, b in uv]
        facesuv = [[3 * k, 3 * k + 1, 3 * k + 2] if nuv == 3 * nt else r.sample(range(nuv), 3) for k in range(nt)]
        if not any(textured) and r.random() < 0.5:
            uv, facesuv = [[F(0), F(0)] for _ in range(nv)], [list(f) for f in faces]
        notex = not any(textured) and r.random() < 0.5
        tex = [[[self.n(-1, 4, 4) for _ in range(C)] for _ in range(TW)] for _ in range(TH)]
        if notex:
            tex, TW, TH = [], 0, 0
        sigma = self.opt("sigma", F(0))
        pe = self.opt("pedge", 1.0, 0.5)
        s = dict(
            H=H, W=W, C=C, faces=faces, facesuv=facesuv, ij=ij, depths=depths,
            colors=[[self.n(-1, 4, 4) for _ in range(C)] for _ in range(nv)],
            shade=[self.n(-1, 2, 4) for _ in range(nv)], uv=uv, tex=tex, TW=TW, TH=TH,
            edgeflags=[[r.random() < pe for _ in range(3)] for _ in faces], textured=textured,
            clockwise=clockwise, culling=culling, strict=self.opt("strict", True, True, False), persp=persp,
            intcenter=self.opt("intcenter", True, True, False), sigma=sigma,
            errmode=self.opt("errmode", False),
            bgkind=self.opt("bgkind", "color", "image"),
        )
        rs = np.random.RandomState(r.getrandbits(32))

        def values(hi, *shape):
            return rs.randint(-2, 4 * hi + 1, shape) / 4.0 if self.lattice else rs.uniform(-0.5, hi, shape)

        # a face without texture has its colors, shaded or not
        s["shaded"] = [t or r.random() < 0.3 for t in textured]
        s["bg"] = values(2, H, W, C) if s["bgkind"] == "image" else np.broadcast_to(values(2, C), (H, W, C)).copy()
        s["obsimg"] = values(4, H, W, C)
        return s


def exact(s):
    """is every depth computation of the implementation exact on this scene?"""
    if s["persp"]:
        return False
    for f in s["faces"]:
        a, b, c = (s["ij"][v] for v in f)
        d = abs((b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1]))
        if d != 0 and (d.numerator & (d.numerator - 1) or d.denominator & (d.denominator - 1)):
            return False
    return True


def lay(a, r=None):
    """the same array, in one of the memory layouts an array can have"""
    r = r or RNG
    k = r.randrange(8)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:  # every other element of each axis of a larger array
        big = np.zeros([2 * n for n in a.shape], dtype=a.dtype)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if k == 2:  # backwards in memory
        idx = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[idx])[idx]
    return a


GUARD = 1237


class Guarded:
    """a buffer with guard words on both sides"""

    def __init__(self, shape, fill):
        n = int(np.prod(shape))
        self.mem = np.full(n + 2 * GUARD, -987.25)
        self.view = self.mem[GUARD:GUARD + n].reshape(shape)
        self.view[...] = fill

    def intact(self):
        return bool(np.all(self.mem[:GUARD] == -987.25) and np.all(self.mem[-GUARD:] == -987.25))


def guarded_render(sc, obs, sigma):
    H, W, C = sc.height, sc.width, sc.nb_colors
    bufs = [Guarded((H, W, C), 3.5), Guarded((H, W), 2.5)] + ([Guarded((H, W), 1.5)] if obs is not None else [])
    renderScene(sc, sigma, bufs[0].view, bufs[1].view, obs is not None, obs, bufs[2].view if obs is not None else None)
    return [b.view for b in bufs], all(b.intact() for b in bufs)


def pad(kw, s):
    """the same scene among a great many vertices that no face uses and faces that cover nothing"""
    nv, nu, nf = s["pad"]
    n, m, k = len(kw["ij"]), len(kw["uv"]), len(kw["faces"])
    rs = np.random.RandomState(nv % 1000)
    # the vertices of the scene keep their order
    vm = np.sort(rs.choice(n + nv, n, replace=False)) if nv else np.arange(n)
    um = np.sort(rs.choice(m + nu, m, replace=False)) if nu else np.arange(m)
    fm = np.sort(rs.choice(k + nf, k, replace=False)) if nf else np.arange(k)
    for name, mp, total in (("ij", vm, n + nv), ("depths", vm, n + nv), ("colors", vm, n + nv), ("shade", vm, n + nv), ("uv", um, m + nu)):
        a = kw[name]
        b = rs.uniform(0.5, 3, (total,) + a.shape[1:])
        b[mp] = a
        kw[name] = b
    faces, uvs = vm[kw["faces"].astype(int)].astype(np.uint32), um[kw["faces_uv"].astype(int)].astype(np.uint32)
    f, g = np.empty((k + nf, 3), np.uint32), np.empty((k + nf, 3), np.uint32)
    f[:] = rs.randint(0, n + nv, (k + nf, 1))  # three times the same vertex: no area
    g[:] = rs.randint(0, m + nu, (k + nf, 1))
    f[fm], g[fm] = faces, uvs
    for name, fill in (("textured", False), ("shaded", False), ("edgeflags", False)):
        a = kw[name]
        b = np.full((k + nf,) + a.shape[1:], fill)
        b[fm] = a
        kw[name] = b
    kw["faces"], kw["faces_uv"] = f, g
    s["maps"] = dict(ij=vm, colors=vm, shade=vm, uv=um)


def unpad(s, name, g):
    """the part of a gradient that belongs to the scene, the rest of it is zero"""
    g = np.asarray(g)
    if name == "tex" and s.get("widened"):  # the borders were extended: all of this is the gradient of the border
        (l, t), h, w = s["widened"][:2], s["TH"], s["TW"]
        g = g.copy()
        g[:, l] += g[:, :l].sum(axis=1)
        g[:, l + w - 1] += g[:, l + w:].sum(axis=1)
        g = g[:, l:l + w]
        g[t] += g[:t].sum(axis=0)
        g[t + h - 1] += g[t + h:].sum(axis=0)
        return g[t:t + h].ravel()
    if "maps" not in s or name not in s["maps"]:
        return g.ravel()
    rest = np.ones(len(g), bool)
    rest[s["maps"][name]] = False
    if np.any(g[rest] != 0):
        raise ValueError("gradient of what is not used: " + name)
    return g[s["maps"][name]].ravel()


def padded(s):
    """vertex, texture vertex and face numbers that do not fit 16 bits"""
    s["pad"] = RNG.choice([(70000, 0, 0), (0, 70000, 0), (0, 0, 70000), (140000, 80000, 40000), (5, 7, 3)])


def scene2d(s):
    C = s["C"]
    H, W = s["H"], s["W"]
    bg = np.array(s["bg"]).reshape(H, W, C)
    image = s["bgkind"] == "image"
    tex = np.array([[[float(v) for v in p] for p in row] for row in s["tex"]]) if s["tex"] else np.zeros((0, 0))
    nt = len(s["faces"])
    kw = dict(
        faces=np.array(s["faces"], dtype=np.uint32).reshape(nt, 3),
        faces_uv=np.array(s["facesuv"], dtype=np.uint32).reshape(nt, 3),
        ij=fl(s["ij"]), depths=np.array([float(d) for d in s["depths"]]),
        textured=np.array(s["textured"], dtype=bool), uv=fl(s["uv"]),
        shade=np.array([float(x) for x in s["shade"]]), colors=fl(s["colors"]).reshape(len(s["ij"]), C),
        shaded=np.array(s["shaded"], dtype=bool), edgeflags=np.array(s["edgeflags"], dtype=bool).reshape(nt, 3),
        height=H, width=W, nb_colors=C, texture=tex,
        background_image=bg if image else None, background_color=None if image else bg[0, 0].copy(),
        clockwise=s["clockwise"], backface_culling=s["culling"], strict_edge=s["strict"],
        perspective_correct=s["persp"], integer_pixel_centers=s["intcenter"],
    )
    if s.get("pad"):
        pad(kw, s)
    if s.get("widened") and len(s["tex"]):  # the same texture, with its borders extended as they are by definition
        l, t, r, b = s["widened"]
        kw["texture"] = np.pad(kw["texture"], ((t, b), (l, r), (0, 0)), mode="edge")
        kw["uv"] = kw["uv"] + np.array([l, t])
    sc = Scene2D(**kw)
    for a in ("faces", "faces_uv", "ij", "depths", "textured", "uv", "shade", "colors", "shaded", "edgeflags", "texture", "background_image", "background_color"):
        if getattr(sc, a) is not None:
            setattr(sc, a, lay(getattr(sc, a)))
    return sc


def record(s, pix=None, grad=False, lattice=True, rng=None, tol="1/100000000", gtol="1/10000000", note=""):
    r = rng or RNG
    s["ij"] = [[F(float(x)) for x in p] for p in s["ij"]]
    H, W, C = s["H"], s["W"], s["C"]
    pix = pix or [[x, y] for y in range(H) for x in range(W)]
    spec = {k: s[k] for k in ("H", "W", "C", "faces", "facesuv", "edgeflags", "textured", "clockwise", "culling",
                              "strict", "persp", "intcenter", "TW", "TH", "errmode")}
    for k in ("ij", "depths", "colors", "shade", "uv", "sigma"):
        spec[k] = nums(s[k])
    spec["tex"] = [nums(p) for row in s["tex"] for p in row]
    spec["pix"] = pix
    spec["bgimage"] = [nums(s["bg"][y][x]) for x, y in pix]
    spec["obs"] = [nums(s["obsimg"][y][x]) for x, y in pix]
    spec["eps"] = "0" if lattice else "1/1000000000"
    spec["exactz"] = bool(lattice and exact(s))
    if r.random() < 0.06 and len(s["tex"]) and np.abs(fl(s["uv"])).max() < 2**30:  # a texture of a great many texels
        k = r.choice([300, 40000, 80000]) // (s["C"] * r.choice([1, 2]))
        l, t = RNG.choice([(k, 1), (1, k), (int(k**0.5), int(k**0.5)), (0, k), (k // 2, 0)])
        s["widened"] = l, t, r.randrange(3), r.randrange(3)
        s["widened"] = tuple(min(x, 300) if k * s["C"] > 3e5 else x for x in s["widened"])
    tr = {"scene": spec, "tol": tol, "gtol": gtol, "note": note}
    attempt({"scene": s, "grad": grad, "note": note})
    sc = scene2d(s)
    sigma = float(s["sigma"])
    # colours and depths in other units
    paint, far = (2.0 ** r.choice([-40, -24, -10, 8, 20]) if r.random() < 0.15 else 1.0 for _ in range(2))
    for a, k in (("colors", paint), ("texture", paint), ("background_image", paint), ("background_color", paint), ("depths", far)):
        if k != 1 and getattr(sc, a) is not None:
            getattr(sc, a)[...] *= k
    obs = np.array(s["obsimg"]).reshape(H, W, C) * paint  # must be contiguous
    rec = {}
    if s.get("guarded"):
        status, out = guard(guarded_render, sc, obs if s["errmode"] else None, sigma)
        if status == "ok":
            out, rec["canary"] = out
    elif s["errmode"]:
        status, out = guard(sc.render_error, obs, sigma)
    else:
        status, out = guard(sc.render, sigma)
    if status == "ok":
        img, z = np.array(out[0], copy=True), np.array(out[1], copy=True)
        if img.shape != (H, W, C) or z.shape != (H, W):
            status = f"shape {img.shape} {z.shape}"
        elif s["errmode"] and out[2].shape != (H, W):
            status = f"error shape {out[2].shape}"
    else:
        tr["error"] = out
    if status == "ok":
        rec["z"] = [num(z[y, x] / far) for x, y in pix]
        rec["img"] = [nums(img[y, x] / paint) for x, y in pix]
        if s["errmode"]:
            rec["err"] = [num(out[2][y, x] / paint**2) for x, y in pix]
    if status == "ok" and grad:
        small = lambda: F(r.randint(-8, 8), 4)  # noqa: E731
        dirs = dict(
            ij=[[small(), small()] for _ in s["ij"]], colors=[[small() for _ in range(C)] for _ in s["colors"]],
            shade=[small() for _ in s["shade"]], uv=[[small(), small()] for _ in s["uv"]],
            tex=[[small() for _ in range(C)] for row in s["tex"] for _ in row])
        adj = np.zeros((H, W) if s["errmode"] else (H, W, C))
        for x, y in pix:
            adj[y, x] = float(small()) if s["errmode"] else [float(small()) for _ in range(C)]
        loud = loudness()
        if s["errmode"]:
            status, out = guard(sc.render_error_backward, lay(adj * loud))
        else:
            status, out = guard(sc.render_backward, lay(adj * loud))
        if status == "ok":
            tr["dirs"] = {k: nums(v) for k, v in dirs.items()}
            tr["adj"] = [nums(adj[y, x]) for x, y in pix]
            try:
                rec["grads"] = {k: nums(unpad(s, k, g) / (loud * (1 if k in ("colors", "tex") else paint) * (paint if s["errmode"] else 1))) for k, g in
                                dict(ij=sc.ij_b, colors=sc.colors_b, shade=sc.shade_b, uv=sc.uv_b, tex=sc.texture_b).items()}
            except ValueError as e:
                status, tr["error"] = "error", str(e)
                del tr["dirs"]
        else:
            tr["error"] = out
    rec["status"] = status
    tr["rec"] = rec
    return tr


def grad_ok(s):
    return s["culling"] and not s["persp"]


def many(n, grad=False, pre=None, **kw):
    out = []
    while len(out) < n:
        s = Gen(RNG, **kw).make()
        if grad and not grad_ok(s):
            continue
        if pre:
            pre(s)
        out.append(record(s, grad=grad, lattice=kw.get("lattice", True), note=json.dumps({k: str(v) for k, v in kw.items()})))
    return out


SIG = dict(sigma=lambda r: r.choice([F(1), F(1, 2), F(2), F(3, 2), F(3), F(1), F(2), F(1, 8), F(1, 64), F(1, 4096), F(6), F(20)]))
NL = dict(lattice=False)
NOTEX = dict(ptex=0.0)
PLAIN = dict(NOTEX, persp=False, sigma=F(0))
GR = dict(persp=False, culling=True)
K = 25 if THOROUGH else 3


def big(n, long=False, grad=False, pre=None, **kw):
    """a window of a large picture: the pixels observed are around the vertices and along the borders"""
    out = []
    for _ in range(n):
        r = RNG
        H, W = r.choice([60, 130, 300]), r.choice([50, 170, 400])
        if long:
            H, W = r.choice([1, 2, 3]), r.choice([32767, 32769, 40000, 66000])
            H, W = (W, H) if r.random() < 0.5 else (H, W)
        g = Gen(r, **dict(dict(H=H, W=W, margin=r.choice([0, 20, 1000, 40000])), **kw))
        s = g.make()
        if pre:
            pre(s)
        H, W = s["H"], s["W"]
        pts = set()
        for x, y in s["ij"]:
            for dx in (-1, 0, 1):
                for dy in (-1, 0, 1):
                    pts.add((int(x) + dx, int(y) + dy))
        for f in s["faces"]:
            c = [sum(s["ij"][v][a] for v in f) / 3 for a in (0, 1)]
            pts.add((int(c[0]), int(c[1])))
            for i in range(3):
                a, b = s["ij"][f[i]], s["ij"][f[(i + 1) % 3]]
                for _ in range(6):
                    t = F(r.randint(0, 16), 16)
                    p = [a[k] + t * (b[k] - a[k]) for k in (0, 1)]
                    for d in (-1, 0, 1):
                        pts.add((int(p[0]) + d, int(p[1])))
                        pts.add((int(p[0]), int(p[1]) + d))
        pts |= {(0, 0), (W - 1, 0), (0, H - 1), (W - 1, H - 1)}
        pts |= {(r.randrange(W), r.randrange(H)) for _ in range(10)}
        pts |= {(0, r.randrange(H)) for _ in range(4)} | {(W - 1, r.randrange(H)) for _ in range(4)}
        pts |= {(r.randrange(W), 0) for _ in range(4)} | {(r.randrange(W), H - 1) for _ in range(4)}
        pix = sorted([x, y] for x, y in pts if 0 <= x < W and 0 <= y < H)
        if len(pix) > 110:
            pix = sorted(r.sample(pix, 110))
        if grad and not grad_ok(s):
            continue
        out.append(record(s, pix=pix, grad=grad, lattice=kw.get("lattice", True), note="big"))
    return out


def guarded(s):
    """render into buffers that have guard words around them"""
    s["guarded"] = True


def flatcolors(s):
    """one colour per face: what is drawn tells which face was drawn"""
    C = s["C"]
    for v in range(len(s["ij"])):
        s["colors"][v] = [F(v // 3 + 1)] * C


def degenerate(s):
    f = RNG.choice(s["faces"])
    k = RNG.randrange(5)
    a, b, c = f
    if k == 0:
        s["ij"][b] = list(s["ij"][a])
    elif k == 4:
        s["ij"][c] = list(s["ij"][b])
    elif k == 1 and all(x.denominator <= 4 for v in f for x in s["ij"][v]):
        s["ij"][c] = [(s["ij"][a][i] + s["ij"][b][i]) / 2 for i in (0, 1)]
    elif k == 2:
        s["ij"][b] = list(s["ij"][a])
        s["ij"][c] = list(s["ij"][a])
    elif k == 3:
        f[1] = f[0]


def edgecase(s):
    """edges through pixel centers, horizontal and vertical ones, thin faces"""
    f = RNG.choice(s["faces"])
    a, b, c = f
    k = RNG.randrange(3)
    s["ij"][b][k % 2] = s["ij"][a][k % 2]
    if k == 2:
        s["ij"][c] = [s["ij"][a][0] + F(1, 8), s["ij"][a][1]]


def hair(s):
    """very thin edges, some of them next to pixel centers"""
    edgecase(s)
    for p in s["ij"]:
        for k in range(2):
            p[k] += s["sigma"] * F(RNG.choice([-1, -1, 0, 1, 1]), RNG.choice([2, 4]))


def coincident(s):
    """several faces exactly at the same place"""
    nt = len(s["faces"])
    i = RNG.randrange(nt)
    for j in range(nt):
        if j != i and RNG.random() < 0.6:
            for a, b in zip(s["faces"][i], s["faces"][j]):
                s["ij"][b] = list(s["ij"][a])
                s["depths"][b] = s["depths"][a]


def turned(s, f, front=True):
    """make the face look at us, or away"""
    a, b, c = (s["ij"][v] for v in f)
    area = (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])
    if ((area > 0) != s["clockwise"]) == front:
        f[1], f[2] = f[2], f[1]


def narrow(s):
    """faces, at depths that differ by very little, on which the implementation's arithmetic is exact"""
    s["faces"] = [[3 * k, 3 * k + 1, 3 * k + 2] for k in range(len(s["faces"]))]
    slope = [F(RNG.randint(-2, 2), 8) if RNG.random() < 0.5 else F(0) for _ in range(2)]
    step = F(1, 2 ** RNG.choice([20, 28, 34]))
    for f in s["faces"]:
        x, y = F(RNG.randint(-3, 2)), F(RNG.randint(-3, 2))
        a, b = RNG.choice([8, 16]), RNG.choice([8, 16])
        p = [[x, y], [x + a, y], [x, y + b]]
        if RNG.random() < 0.5:
            p = [[s["W"] - 1 - i, s["H"] - 1 - j] for i, j in p]
        d = 4 + step * RNG.randint(-3, 3)
        for v, q in zip(f, p):
            s["ij"][v] = q
            s["depths"][v] = d + slope[0] * q[0] + slope[1] * q[1]
        turned(s, f)


def close(s):
    """faces parallel to the image, at depths that differ by very little"""
    s["faces"] = [[3 * k, 3 * k + 1, 3 * k + 2] for k in range(len(s["faces"]))]
    step = F(1, 2 ** RNG.choice([20, 26, 30, 36]))
    order = RNG.sample(range(len(s["faces"])), len(s["faces"]))
    for f, k in zip(s["faces"], order):
        for v in f:
            s["depths"][v] = 4 + step * k
        if f[0] != f[1]:
            turned(s, f)


def tiny(s):
    """faces much smaller than a pixel, around the centres of pixels, on which the implementation's arithmetic is exact"""
    half = F(0) if s["intcenter"] else F(1, 2)
    for f in RNG.sample(s["faces"], RNG.randint(1, len(s["faces"]))):
        q = RNG.choice([[(-1, -1), (1, -1), (-1, 3)], [(-1, -2), (3, -2), (-1, 6)], [(-2, -1), (2, -1), (0, 1)]])
        t = RNG.choice([(1, 1), (-1, 1), (1, -1), (-1, -1)])
        k, w = F(1, 2 ** RNG.choice([6, 10, 14, 18])), RNG.randrange(2)
        c = [F(RNG.randrange(s["W"])) + half, F(RNG.randrange(s["H"])) + half]
        for v, o in zip(f, q):
            s["ij"][v] = [c[0] + t[0] * o[w] * k, c[1] + t[1] * o[1 - w] * k]
        turned(s, f, RNG.random() < 0.75)


def far(s):
    """a border that crosses the image and meets its rows, or columns, very far away"""
    f = s["faces"][0]
    a, b, c = RNG.sample(f, 3)
    big = lambda: F(RNG.choice([1, -1]) * RNG.randint(1, 16) * RNG.choice([4096, 65536, 1 << 20]))  # noqa: E731
    x = abs(big())
    lo, hi = RNG.sample([0, 1, 2, 3], 2)
    u, v = [-x, F(lo) + F(RNG.randint(0, 4), 4)], [x * RNG.choice([1, 2, F(1, 2)]), F(hi) + F(RNG.randint(0, 4), 4)]
    w = [F(RNG.randint(-4, 8)), big()]
    if RNG.random() < 0.25:
        u, v, w = u[::-1], v[::-1], w[::-1]
    p = [u, v, w]
    RNG.shuffle(p)
    s["ij"][a], s["ij"][b], s["ij"][c] = p
    if s["culling"]:
        area = (s["ij"][f[1]][0] - s["ij"][f[0]][0]) * (s["ij"][f[2]][1] - s["ij"][f[0]][1]) - (s["ij"][f[2]][0] - s["ij"][f[0]][0]) * (s["ij"][f[1]][1] - s["ij"][f[0]][1])
        if (area > 0) != s["clockwise"]:
            f[1], f[2] = f[2], f[1]


def tie(n):
    """two coincident faces, and others, whose gradients are compared all the same"""
    out = []
    while len(out) < n:
        s = Gen(RNG, **dict(GR, mesh=False, nt=2, flat=True, sigma=F(0), ptex=0.0, orient=True, behind=False)).make()
        for i in range(3):
            s["ij"][3 + i] = list(s["ij"][i])
            s["depths"][3 + i] = s["depths"][i]
        s["faces"][1] = [v + 3 for v in s["faces"][0]]
        t = record(s, grad=True, note="ties")
        t["ties"] = True
        out.append(t)
    return out


def tiling():
    """the faces that TLC enumerated, beside or instead of one another, at the same depth or not"""
    out = []
    for c in json.load(open(ARGS.input)):
        n = len(c["faces"])
        s = Gen(RNG, **dict(PLAIN, nt=max(n, 1), mesh=False, orient=False, behind=False, culling=True, H=c["H"], W=c["W"])).make()
        s["clockwise"], s["strict"] = RNG.random() < 0.5, RNG.random() < 0.75
        half = F(0) if s["intcenter"] else F(1, 2)
        p = [[F(x, c["den"]) + half for x in q] for q in c["pts"]]
        faces = [list(f) for f in c["faces"]]
        RNG.shuffle(faces)
        faces = [f[k:] + f[:k] for f in faces for k in [RNG.randrange(3)]]
        s["faces"] = [[3 * k, 3 * k + 1, 3 * k + 2] if s["clockwise"] else [3 * k, 3 * k + 2, 3 * k + 1] for k in range(n)]
        deep = RNG.random() < 0.5
        for k, f in enumerate(faces):
            for i in range(3):
                s["ij"][3 * k + i] = p[f[i]]
                s["depths"][3 * k + i] = F(n - k if deep else 2)
        flatcolors(s)
        out.append(record(s, note="tiling"))
    return out


FAMILIES = {
    "tiling": tiling,
    "coverage": lambda: many(30 * K, **dict(PLAIN, nt=1, strict=True)) + many(30 * K, **dict(PLAIN, strict=False))
    + many(30 * K, **dict(PLAIN, mesh=True)) + many(20 * K, pre=edgecase, **PLAIN) + many(20 * K, **dict(PLAIN, **NL))
    + many(20 * K, pre=far, **dict(PLAIN, nt=1, mesh=False, flat=True)) + many(10 * K, pre=far, **dict(PLAIN, nt=3, mesh=False, flat=True))
    + big(16 * K, **PLAIN) + big(16 * K, **dict(PLAIN, **NL)) + many(10 * K, **dict(NOTEX, persp=True, sigma=F(0)))
    + big(5 * K, long=True, **PLAIN) + big(4 * K, long=True, **dict(PLAIN, **NL)) + many(3 * K, pre=padded, **PLAIN)
    + many(25 * K, pre=tiny, **dict(PLAIN, nt=2, mesh=False)),
    "visibility": lambda: many(20 * K, pre=narrow, **dict(PLAIN, nt=4, mesh=False)) + many(15 * K, pre=narrow, **dict(sigma=F(0), persp=False, nt=3, mesh=False, ptex=1.0)) + many(25 * K, pre=flatcolors, **dict(PLAIN, nt=lambda r: r.randint(3, 8), mesh=False))
    + many(25 * K, pre=flatcolors, **dict(PLAIN, nt=lambda r: r.randint(3, 8), mesh=False, **NL))
    + many(25 * K, pre=flatcolors, **dict(NOTEX, persp=True, sigma=F(0), nt=lambda r: r.randint(2, 6), mesh=False, **NL))
    + many(15 * K, **dict(PLAIN, nt=6, mesh=True)) + many(15 * K, **dict(nt=4, ptex=0.5, sigma=F(0), **NL))
    + many(10 * K, pre=coincident, **dict(PLAIN, nt=3, mesh=False)) + many(15 * K, pre=coincident, **dict(sigma=F(0), nt=3, mesh=False, ptex=1.0, margin=1))
    + many(15 * K, pre=coincident, **dict(sigma=F(0), nt=4, mesh=False, ptex=0.5, margin=1, **NL))
    + many(10 * K, pre=flatcolors, **dict(PLAIN, nt=5, mesh=False, flat=True, margin=1)) + many(10 * K, **dict(sigma=F(0), ptex=1.0, nt=5, mesh=False, flat=True, margin=1)) + big(6 * K, **dict(NOTEX, sigma=F(0), nt=6, **NL))
    + many(5 * K, pre=padded, **dict(nt=4, ptex=0.5, sigma=F(0), **NL)) + many(2 * K, **dict(nt=lambda r: r.randint(17, 40), C=1, H=4, W=5, sigma=F(0), **NL)) + big(4 * K, long=True, **dict(NOTEX, nt=6, flat=False, sigma=F(0), **NL)),
    "interpolation": lambda: many(25 * K, **dict(PLAIN, flat=False)) + many(25 * K, **dict(PLAIN, **NL))
    + many(35 * K, **dict(NOTEX, persp=True, sigma=F(0), flat=False, **NL))
    + many(15 * K, **dict(NOTEX, persp=True, sigma=F(0), flat=False)) + many(20 * K, **dict(PLAIN, C=lambda r: r.choice([1, 5, 6, 8]), **NL))
    + many(20 * K, **dict(NOTEX, sigma=F(0), intcenter=False)) + big(10 * K, **dict(NOTEX, sigma=F(0), **NL))
    + big(5 * K, long=True, **dict(NOTEX, sigma=F(0), **NL)) + many(2 * K, **dict(NOTEX, sigma=F(0), C=40, H=3, W=4, **NL)),
    "texture": lambda: many(40 * K, **dict(ptex=1.0, sigma=F(0))) + many(40 * K, **dict(ptex=1.0, sigma=F(0), **NL))
    + many(30 * K, **dict(ptex=1.0, sigma=F(0), uvin=False, **NL)) + many(20 * K, **dict(ptex=0.5, sigma=F(0), persp=True, **NL))
    + many(20 * K, **dict(ptex=1.0, sigma=F(0), TW=lambda r: r.choice([1, 2, 7]), TH=lambda r: r.choice([1, 2, 6]), uvin=False, **NL))
    + big(5 * K, long=True, **dict(ptex=1.0, sigma=F(0), **NL)) + many(4 * K, pre=padded, **dict(ptex=1.0, sigma=F(0), **NL))
    + many(3 * K, **dict(ptex=1.0, TW=lambda r: r.choice([2, 300]), TH=lambda r: r.choice([3, 270]), C=1, uvin=False, sigma=F(0), **NL)),
    "culling": lambda: many(40 * K, **dict(NOTEX, sigma=F(0), orient=False)) + many(40 * K, **dict(NOTEX, sigma=F(0), behind=True))
    + many(20 * K, pre=tiny, **dict(PLAIN, nt=2, mesh=False)) + many(20 * K, pre=degenerate, **dict(NOTEX, sigma=F(0), orient=False)) + many(20 * K, **dict(NOTEX, orient=False, culling=False, **NL, **SIG))
    + many(20 * K, **dict(NOTEX, behind=True, orient=False, **NL, **SIG)) + many(15 * K, **dict(ptex=1.0, behind=True, orient=False, sigma=F(0), **NL))
    + many(20 * K, pre=degenerate, **dict(NOTEX, orient=False, **NL, **SIG))
    + big(4 * K, long=True, **dict(NOTEX, orient=False, culling=False, **NL, **SIG)),
    "background": lambda: many(30 * K, **dict(NOTEX, sigma=F(0), margin=6, bgkind="image")) + many(30 * K, **dict(NOTEX, sigma=F(0), margin=6, bgkind="color"))
    + many(20 * K, **dict(NOTEX, margin=6, **NL, **SIG)) + many(15 * K, **dict(nt=1, H=1, W=lambda r: r.randint(1, 9), ptex=0.5, **SIG, **NL))
    + many(15 * K, **dict(nt=1, W=1, H=lambda r: r.randint(1, 9), ptex=0.5, sigma=F(0)))
    + many(10 * K, **dict(NOTEX, margin=60, **NL, **SIG)) + many(20 * K, pre=guarded, **dict(margin=3, ptex=0.5, **SIG, **NL))
    + many(20 * K, pre=guarded, **dict(margin=3, ptex=0.5, sigma=F(0))) + many(15 * K, pre=guarded, **dict(margin=3, ptex=0.5, errmode=True, **SIG, **NL)) + big(14 * K, **dict(NOTEX, sigma=F(0), **NL)) + big(10 * K, **dict(NOTEX, **SIG, **NL))
    + big(3 * K, long=True, **dict(NOTEX, **SIG, **NL)),
    "antialias": lambda: many(2 * K, **dict(nt=lambda r: r.randint(17, 30), C=1, H=4, W=4, **SIG, **NL)) + many(40 * K, **dict(NOTEX, **SIG)) + many(40 * K, **dict(NOTEX, **NL, **SIG))
    + many(30 * K, **dict(ptex=0.5, **NL, **SIG)) + many(25 * K, pre=edgecase, **SIG) + many(25 * K, **dict(nt=4, mesh=True, pedge=0.5, **NL, **SIG))
    + many(10 * K, **dict(NOTEX, persp=True, **NL, **SIG)) + many(10 * K, **dict(ptex=1.0, persp=True, **NL, **SIG)) + big(10 * K, **dict(SIG, **NL))
    + many(15 * K, **dict(NOTEX, nt=6, mesh=False, flat=False, **NL, **SIG))
    + many(30 * K, pre=hair, **dict(NOTEX, sigma=lambda r: F(1, r.choice([64, 4096, 2**20])), pedge=1.0, intcenter=True, den=1, margin=1, culling=True))
    + many(25 * K, pre=close, **dict(NOTEX, nt=lambda r: r.randint(2, 4), mesh=False, margin=1, persp=False, behind=False, zscale=1, **SIG))
    + big(4 * K, long=True, **dict(ptex=0.5, **SIG, **NL)) + many(4 * K, pre=padded, **dict(ptex=0.5, **SIG, **NL)),
    "errormode": lambda: many(K, **dict(errmode=True, nt=lambda r: r.randint(17, 30), C=1, H=4, W=4, **SIG, **NL)) + many(40 * K, **dict(errmode=True, **NL, **SIG)) + many(30 * K, **dict(errmode=True, **SIG))
    + many(15 * K, **dict(errmode=True, sigma=F(0), **NL)) + many(20 * K, **dict(errmode=True, ptex=1.0, **NL, **SIG))
    + many(15 * K, pre=close, **dict(errmode=True, ptex=0.5, nt=lambda r: r.randint(2, 4), mesh=False, margin=1, persp=False, behind=False, zscale=1, **SIG))
    + many(15 * K, pre=edgecase, **dict(errmode=True, **SIG)) + many(10 * K, **dict(errmode=True, persp=True, **NL, **SIG))
    + many(15 * K, **dict(NOTEX, errmode=True, nt=5, mesh=False, **NL, **SIG)) + big(6 * K, **dict(errmode=True, **SIG, **NL))
    + big(4 * K, long=True, **dict(errmode=True, ptex=0.5, **SIG, **NL)) + many(3 * K, pre=padded, **dict(errmode=True, ptex=0.5, **SIG, **NL)),
    "grad_tri": lambda: many(2 * K, grad=True, **dict(ptex=0.5, nt=lambda r: r.randint(17, 30), C=1, H=4, W=4, sigma=F(0), **GR, **NL)) + many(35 * K, grad=True, **dict(NOTEX, sigma=F(0), **GR, **NL)) + many(20 * K, grad=True, **dict(NOTEX, sigma=F(0), flat=False, **GR))
    + many(40 * K, grad=True, **dict(ptex=1.0, sigma=F(0), **GR, **NL)) + many(25 * K, grad=True, **dict(ptex=0.5, sigma=F(0), uvin=False, **GR, **NL))
    + many(15 * K, grad=True, **dict(nt=5, mesh=True, ptex=0.5, sigma=F(0), **GR, **NL))
    + many(10 * K, grad=True, **dict(ptex=1.0, TW=lambda r: r.choice([1, 2, 6]), TH=lambda r: r.choice([1, 5]), sigma=F(0), uvin=False, **GR, **NL))
    + tie(6 * K)
    + big(6 * K, grad=True, **dict(ptex=0.5, sigma=F(0), **GR, **NL)) + big(5 * K, long=True, grad=True, **dict(ptex=0.5, sigma=F(0), **GR, **NL)) + many(5 * K, grad=True, pre=padded, **dict(ptex=0.5, sigma=F(0), **GR, **NL)),
    "grad_edge": lambda: many(2 * K, grad=True, **dict(ptex=0.5, nt=lambda r: r.randint(17, 25), C=1, H=4, W=4, **SIG, **GR, **NL)) + many(50 * K, grad=True, **dict(NOTEX, **GR, **NL, **SIG)) + many(50 * K, grad=True, **dict(ptex=1.0, **GR, **NL, **SIG))
    + many(40 * K, grad=True, **dict(nt=4, mesh=True, ptex=0.5, pedge=0.5, **GR, **NL, **SIG)) + many(25 * K, grad=True, pre=edgecase, **dict(GR, **SIG))
    + many(15 * K, grad=True, pre=close, **dict(GR, ptex=0.0, nt=lambda r: r.randint(2, 4), mesh=False, margin=1, zscale=1, **SIG))
    + many(15 * K, grad=True, **dict(ptex=1.0, uvin=False, **GR, **NL, **SIG)) + many(10 * K, grad=True, **dict(NOTEX, nt=6, mesh=False, **GR, **NL, **SIG))
    + big(6 * K, grad=True, **dict(ptex=0.5, **GR, **NL, **SIG)) + big(4 * K, long=True, grad=True, **dict(ptex=0.5, **GR, **NL, **SIG)) + many(5 * K, grad=True, pre=padded, **dict(ptex=0.5, **GR, **NL, **SIG)),
    "grad_error": lambda: many(K, grad=True, **dict(errmode=True, ptex=0.5, nt=lambda r: r.randint(17, 25), C=1, H=4, W=4, **SIG, **GR, **NL)) + many(40 * K, grad=True, **dict(NOTEX, errmode=True, **GR, **NL, **SIG)) + many(50 * K, grad=True, **dict(ptex=1.0, errmode=True, **GR, **NL, **SIG))
    + many(30 * K, grad=True, **dict(nt=4, mesh=True, ptex=0.5, pedge=0.5, errmode=True, **GR, **NL, **SIG))
    + many(15 * K, grad=True, pre=close, **dict(GR, errmode=True, ptex=1.0, nt=lambda r: r.randint(2, 4), mesh=False, margin=1, zscale=1, **SIG))
    + many(20 * K, grad=True, **dict(errmode=True, sigma=F(0), **GR, **NL)) + many(15 * K, grad=True, **dict(errmode=True, ptex=0.5, nt=5, **GR, **SIG))
    + big(6 * K, grad=True, **dict(errmode=True, ptex=0.5, **GR, **NL, **SIG)) + big(4 * K, long=True, grad=True, **dict(errmode=True, ptex=0.5, **GR, **NL, **SIG)) + many(5 * K, grad=True, pre=padded, **dict(errmode=True, ptex=0.5, **GR, **NL, **SIG)),
    "probe": lambda: many(20, ptex=0.0) + many(20, lattice=False) + many(20, lattice=False, ptex=1.0) + many(20, lattice=False, **SIG)
    + many(20, **SIG) + many(30, lattice=False, grad=True, **GR) + many(30, lattice=False, grad=True, **GR, **SIG)
    + many(30, lattice=False, grad=True, errmode=True, **GR, **SIG),
}
if __name__ == "__main__":
    write(FAMILIES[ARGS.family]())
