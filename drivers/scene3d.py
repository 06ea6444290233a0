"""3D scenes rendered by the real code, recorded for TraceScene3D."""
import mesh as M
from camera import rotation
from common import *  # noqa
from mesh import ColoredTriMesh, conditioned, desc, farray, manifold_simple

from deodr.differentiable_renderer import Camera, Scene3D


def camdesc(cam):
    return dict(ext=nums(cam.extrinsic), int=nums(cam.intrinsic), W=num(cam.width), H=num(cam.height), Wn=int(cam.width), Hn=int(cam.height),
                dist=[] if cam.distortion is None else nums(np.array(cam.distortion)))


def small(x, k=64):
    """few bits: exact arithmetic on them stays cheap"""
    return np.round(np.asarray(x, dtype=float) * k) / k


def camera(v, W, H, near=False):
    r = rotation()
    if RNG.random() < 0.7:
        r = np.round(r * 2**24) / 2**24  # nearly a rotation
    c = v.mean(axis=0)
    size = np.linalg.norm(v - c, axis=1).max()
    dist = size * (RNG.uniform(0.2, 1.0) if near else RNG.uniform(1.6, 4))
    f = small(RNG.uniform(0.35, 0.7) * min(W, H) * dist / size)
    fy = small(f * RNG.choice([1, 1, RNG.uniform(0.8, 1.2)]))
    skew = RNG.choice([0, 0, 0.25])
    K = np.array([[f, skew, small(W / 2 + RNG.uniform(-1, 1))], [0, fy, small(H / 2 + RNG.uniform(-1, 1))], [0, 0, 1]])
    t = small(np.array([0, 0, dist]) - r.dot(c), 256)
    d = None if RNG.random() < 0.6 else small([RNG.uniform(-0.1, 0.1) for _ in range(5)], 256)
    return Camera(extrinsic=np.column_stack((r, t)), intrinsic=K, width=W, height=H, distortion=d)


def far(cam, v):
    """vertices so near the plane of the camera that doubles do not tell where they are seen"""
    p = v.dot(cam.extrinsic[:, :3].T) + cam.extrinsic[:, 3]
    q = np.abs(p[:, :2] / np.where(p[:, 2:] == 0, 1e-9, p[:, 2:])).max()
    d = np.abs(np.zeros(5) if cam.distortion is None else np.array(cam.distortion))
    return q * (1 + d[0] * 2 * q**2 + d[1] * 4 * q**4 + d[4] * 8 * q**6 + 6 * (d[2] + d[3]) * q) * cam.intrinsic[0, 0] > 1e5


class World:
    """a mesh, camera, lights and options"""

    def __init__(self, maxfaces=12, grad=False, depth=False, deferred=False):
        while True:
            f, v, cw = M.mesh(damage=0.3, isolated=0.15, several=0.25, pinch=0.1)
            v = small(v * np.array([RNG.uniform(0.5, 2) for _ in range(3)]))
            if len(f) <= maxfaces and manifold_simple(f) and conditioned(f, v) and M.guard(self.build, f, v, cw)[0] == "ok":
                break
        self.f, self.v, self.cw = f, v, cw
        self.u = self.k = 1.0
        self.extra = 0
        self.W, self.H = RNG.randint(5, 9), RNG.randint(5, 9)
        near = not grad and RNG.random() < 0.15
        self.cam = camera(v, self.W, self.H, near=near)
        while far(self.cam, v):
            self.cam = camera(v, self.W, self.H, near=near)
        self.C = RNG.choice([1, 2, 3, 3, 4])
        self.textured = not depth and RNG.random() < 0.5
        self.sigma = 0.0 if deferred else RNG.choice([0.0, 0.5, 1.0, 1.5])
        self.light = None if RNG.random() < 0.2 else small([RNG.uniform(-1.5, 1.5) for _ in range(3)])
        self.ambient = float(small(RNG.uniform(-0.2, 1)))
        if RNG.random() < 0.15:  # no light, or hardly any
            self.ambient *= RNG.choice([0, 2.0**-10])
            self.light = None if self.light is None else self.light * RNG.choice([0, 2.0**-10, 1])
        self.persp = not grad and RNG.random() < 0.4
        self.culling = grad or RNG.random() < 0.7
        self.intcenter = RNG.random() < 0.5
        self.scale = float(RNG.choice([1, 0.5, small(RNG.uniform(0.1, 3)), small(RNG.uniform(0.1, 3)), 1 / 64, 0.01, 100, 4096, -1, -0.25, 0]))
        n = 1 if depth else self.C
        self.bgcolor = RNG.random() < 0.5
        self.bg = small(NPRNG.rand(n)) if self.bgcolor else small(NPRNG.rand(self.H, self.W, n))
        self.colors = small(NPRNG.rand(len(v), self.C))
        nuv = RNG.randint(3, 3 + len(v))
        self.TW, self.TH = RNG.randint(1, 6), RNG.randint(1, 6)
        self.tex = small(NPRNG.rand(self.TH, self.TW, self.C))
        self.uv = small(np.column_stack((NPRNG.uniform(-0.7, self.TW - 0.3, nuv), NPRNG.uniform(-0.7, self.TH - 0.3, nuv))), 1024)
        self.facesuv = np.array([RNG.sample(range(nuv), 3) for _ in f], dtype=np.uint32)
        # also for the light: no vertex is nearly at the clamping point by construction of the numbers

    @staticmethod
    def build(f, v, cw):
        return M.TriMesh(np.array(f), v, clockwise=cw)

    def crowd(self, n=None):
        """the mesh comes after a great many faces of no area, on vertices of their own"""
        self.extra = n or RNG.choice([30, 90, 300, 12000, 23000])

    def first(self, a, n):
        """a after the rows of what is before"""
        return np.concatenate((a[np.array([RNG.randrange(len(a))] * n, dtype=int)], a)) if n else a

    def own(self, g):
        """the part of a gradient that belongs to the mesh, the rest of it is zero"""
        if np.any(np.asarray(g)[: 3 * self.extra]):
            raise ValueError("gradient of what is not drawn")
        return np.asarray(g)[3 * self.extra:].ravel()

    def units(self, colors=True):
        """lengths and colours are written in these units, for the code they are other numbers; returns the camera"""
        self.u, self.k = unit(), unit() if colors else 1.0
        c = self.cam
        self.real = Camera(extrinsic=np.column_stack((c.extrinsic[:, :3], c.extrinsic[:, 3] * self.u)), intrinsic=c.intrinsic, width=c.width, height=c.height,
                           distortion=c.distortion)
        return self.real

    def mesh(self):
        n = self.extra
        kw = dict(faces_uv=self.first(self.facesuv, n), uv=self.uv.copy(), texture=self.tex * self.k) if self.textured else dict(colors=self.first(self.colors, 3 * n) * self.k)
        f = farray(self.f, 3 * n + len(self.v))
        if n:
            f = np.concatenate((np.arange(3 * n).reshape(n, 3).astype(f.dtype), f + np.array(3 * n, dtype=f.dtype)))
        return ColoredTriMesh(f, np.concatenate((np.repeat(self.v[NPRNG.randint(len(self.v), size=n)], 3, axis=0), self.v)) * self.u, clockwise=self.cw, compute_adjacencies=RNG.random() < 0.7, **kw)

    def scene(self, m=None):
        s = Scene3D(sigma=self.sigma, perspective_correct=self.persp, integer_pixel_centers=self.intcenter)
        s.set_mesh(m or self.mesh())
        s.set_light(self.light if self.light is None else self.light.copy(), self.ambient)
        if self.bgcolor:
            s.set_background_color(self.bg * self.k)
        else:
            s.set_background_image(self.bg * self.k)
        return s

    def background(self, pix):
        return [nums(self.bg) for _ in pix] if self.bgcolor else [nums(self.bg[y, x]) for x, y in pix]

    def q(self, pix, **kw):
        d = dict(m=desc(self.f, len(self.v), self.cw), x=nums(self.v), cam=camdesc(self.cam), light=[] if self.light is None else nums(self.light),
                 ambient=num(self.ambient), textured=self.textured, C=self.C, bg=self.background(pix), sigma=num(self.sigma), culling=self.culling,
                 persp=self.persp, intcenter=self.intcenter, pix=[[int(x), int(y)] for x, y in pix], scale=num(self.scale),
                 colors=[] if self.textured else nums(self.colors), uv=nums(self.uv) if self.textured else [],
                 facesuv=ints(self.facesuv) if self.textured else [], tex=nums(self.tex.reshape(-1, self.C)) if self.textured else [], TW=self.TW, TH=self.TH)
        d.update(kw)
        return d

    def snapshot(self, s):
        m = s.mesh
        a = [m.faces, m.vertices, self.real.extrinsic, self.real.intrinsic]
        a += [x for x in (m.uv, m.faces_uv, m.texture, m.vertices_colors, s.background_color, s.background_image, s.light_directional) if x is not None]
        return [np.array(x, copy=True) for x in a]

    def pixels(self):
        return [(x, y) for y in range(self.H) for x in range(self.W)]


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))


def atpix(img, pix):
    return [nums(img[y, x]) for x, y in pix]


TOL, GTOL = "1/10000000", "1/1000000"


def image(grad=False, depth=False):
    w = World(maxfaces=12 if grad else 20, grad=grad, depth=depth)
    pix = w.pixels()
    op = "depth" if depth else "render"
    attempt(dict(op=op, q=w.q(pix)))
    cam = w.units()
    if RNG.random() < 0.08:
        w.crowd()
    s = w.scene()
    before = w.snapshot(s)
    adj = M.dyadic((w.H, w.W, 1 if depth else w.C), 2)
    loud = loudness()
    adj *= loud
    adj0 = adj.copy()

    def go():
        if depth:
            out = dict(img=atpix(s.render_depth(cam, depth_scale=w.scale * w.k / w.u, backface_culling=w.culling) / w.k, pix))
        elif RNG.random() < 0.5:
            img, z = s.render(cam, return_z_buffer=True, backface_culling=w.culling)
            out = dict(img=atpix(img / w.k, pix), z=[num(z[y, x] / w.u) for x, y in pix])
        else:
            out = dict(img=atpix(s.render(cam, backface_culling=w.culling) / w.k, pix))
        if grad:
            if depth:
                s.render_depth_backward(adj)
            else:
                s.render_backward(adj)
            m = s.mesh
            g = dict(x=w.own(m._vertices_b))
            if not depth:
                g["ambient"] = [float(s.light_ambient_b)]
                if w.light is not None:
                    g["light"] = np.asarray(s.light_directional_b).ravel()
                if w.textured:
                    g["tex"], g["uv"] = np.asarray(s.scene_2d.texture_b).ravel(), np.asarray(s.scene_2d.uv_b).ravel()
                else:
                    g["colors"] = w.own(m.vertices_colors_b)
            out["grads"] = g = {k: nums(np.asarray(x) * (w.u if k == "x" else 1) / (loud * (1 if k in ("colors", "tex") else w.k))) for k, x in g.items()}
        return out

    status, r = guard(go)
    kept = same(before, w.snapshot(s)) and np.array_equal(adj, adj0)
    tr = dict(op=op, q=w.q(pix), status=status, rec=r if status == "ok" else dict(message=r), kept=bool(kept), tol=TOL, gtol=GTOL)
    if grad:
        d = lambda *shape: nums(M.dyadic(shape, 1))
        tr["adj"] = atpix(adj0 / loud, pix)
        tr["dirs"] = dict(x=d(len(w.v), 3), colors=[] if w.textured else d(len(w.v), w.C), light=[] if w.light is None else d(3), ambient=d(1),
                          tex=d(w.TH * w.TW, w.C) if w.textured else [], uv=d(len(w.uv), 2) if w.textured else [])
    return tr


CHANNELS = ["depth", "face_id", "barycentric", "normal", "luminosity", "xyz", "uv", "color"]


def deferred():
    w = World(deferred=True)
    pix = w.pixels()
    req = [c for c in CHANNELS if RNG.random() < 0.7]
    avail = [c for c in req if c != ("color" if w.textured else "uv")]
    if not avail:
        return deferred()
    attempt(dict(op="deferred", q=w.q(pix)))
    cam = w.units(colors=False)
    if RNG.random() < 0.2:
        w.crowd(RNG.choice([None, 40000]))
    s = w.scene()
    before = w.snapshot(s)
    status, r = guard(lambda: s.render_deferred(cam, depth_scale=w.scale / w.u, backface_culling=w.culling, **{c: c in req for c in CHANNELS}))
    rec = {}
    if status == "ok":
        keys = sorted(r)
        if w.extra and "face_id" in r:
            r["face_id"] = np.where(np.asarray(r["face_id"]) > w.extra - 0.5, np.asarray(r["face_id"]) - w.extra, r["face_id"])
        img = [np.asarray(r[c]) / (w.u if c == "xyz" else 1) for c in avail if c in r]
        rec = dict(keys=keys, img=atpix(np.concatenate(img, axis=2), pix) if img else [[] for _ in pix])
    else:
        rec = dict(message=r)
    return dict(op="deferred", q=w.q(pix, channels=avail, requested=req), status=status, rec=rec, kept=same(before, w.snapshot(s)), tol=TOL, gtol=GTOL)


K = 12 if THOROUGH else 1
FAMILIES = {
    "image": lambda: [image() for _ in range(120 * K)],
    "gradient": lambda: [image(grad=True) for _ in range(70 * K)],
    "depth": lambda: [image(depth=True) for _ in range(70 * K)] + [image(depth=True, grad=True) for _ in range(50 * K)],
    "deferred": lambda: [deferred() for _ in range(80 * K)],
}
if __name__ == "__main__":
    write(FAMILIES[ARGS.family]())
