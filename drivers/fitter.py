"""Real fittings, recorded for TraceFit and replayed for FitLife."""
import contextlib
import io
import math

import mesh as M
from camera import desc as _camdesc  # noqa: F401
from common import *  # noqa
from scene3d import atpix, camdesc, small

from deodr.mesh_fitter import MeshDepthFitter, MeshRGBFitterWithPose, MeshRGBFitterWithPoseMultiFrame


def quiet(fn, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **kw)


def euler_matrix(e):
    """extrinsic rotations about z, then y, then x"""
    (cz, sz), (cy, sy), (cx, sx) = [(math.cos(a), math.sin(a)) for a in e]
    rz = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]])
    ry = np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]])
    rx = np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
    return rx.dot(ry).dot(rz)


CLASSES = dict(depth=MeshDepthFitter, rgb=MeshRGBFitterWithPose, multi=MeshRGBFitterWithPoseMultiFrame)


class World:
    """a mesh, initial pose, images and options; kind: depth, rgb or multi"""

    made = 0

    def __init__(self, kind, maxfaces=6, classes=CLASSES, units=True):
        self.kind = kind
        self.classes = classes
        while True:
            f, v, cw = M.mesh(kind=RNG.choice([0, 0, 3, 5, 6, 7]), damage=0.3, isolated=0, several=0)
            v = small(v * np.array([RNG.uniform(0.7, 1.5) for _ in range(3)]))
            if cw:
                f = [(a, c, b) for a, b, c in f]
            if len(f) <= maxfaces and M.manifold_simple(f) and M.conditioned(f, v) and M.outside(f, v, False) and M.connected(f, len(v)):
                break
        self.f, self.v = f, v - small(v.mean(axis=0)) + (0 if RNG.random() < 0.5 else 0.25)
        self.W, self.H = RNG.randint(5, 7), RNG.randint(5, 7)
        n = RNG.choice([1, 2, 2, 3]) if kind == "multi" else 1
        self.n = n
        shape = (n, 3) if kind == "multi" else (3,)
        self.euler = np.array([[RNG.uniform(-1, 1) for _ in range(3)] for _ in range(n)]).reshape(shape)
        self.trans = small(np.array([[RNG.uniform(-0.2, 0.2) for _ in range(3)] for _ in range(n)])).reshape(shape)
        self.focal = None if RNG.random() < 0.5 else float(small(self.W * RNG.uniform(1.2, 2)))
        self.dist = None if kind == "multi" or RNG.random() < 0.6 else small([RNG.uniform(-0.1, 0.1) for _ in range(5)], 256)
        self.cregu = float(small(RNG.choice([0, 0.5, 3])))
        self.cdata = float(small(RNG.choice([1, 0.5, 3]))) if kind == "multi" else 1.0
        self.inertia, self.damping = float(small(RNG.uniform(0, 1))), float(small(RNG.uniform(0, 0.5)))
        World.made += 1
        if World.made % 6 in (1, 3, 5):  # without memory, or without damping, or the most of it
            self.inertia = [0.0, self.inertia, RNG.choice([0.0, 1.0])][World.made % 6 // 2]
            self.damping = [self.damping, 0.0, RNG.choice([0.0, 1.0])][World.made % 6 // 2]
        self.color = small(NPRNG.rand(3))
        self.light = small([RNG.uniform(-1, 1) for _ in range(3)])
        self.ambient = float(small(RNG.uniform(0.1, 1))) if RNG.random() < 0.9 else 0.0
        if RNG.random() < 0.1:
            self.light = self.light * RNG.choice([0, 2.0**-12])
        self.lights, self.colored = RNG.random() < 0.6, RNG.random() < 0.6
        self.default = kind != "depth" and self.lights and self.colored and RNG.random() < 0.5  # rely on the default flags
        self.maxdepth, self.scale = float(small(RNG.uniform(3, 12))), float(small(RNG.uniform(0.5, 2)))
        self.bg = small(NPRNG.rand(3))
        self.factors = [float(x) for x in small([RNG.uniform(0.01, 0.1) for _ in range(6)], 1024)]
        if RNG.random() < 0.4:
            self.factors[1], self.factors[3], self.factors[5] = 1 / 64, 1 / 64, 1 / 128  # often clamped
        c = 1 if kind == "depth" else 3
        hi = self.maxdepth if kind == "depth" else 1
        # the same in other units of length
        k = float(2.0 ** RNG.choice([0, 0, 0, -2, -5, 3])) if units else 1.0
        self.v, self.trans, self.maxdepth, self.scale = self.v * k, self.trans * k, self.maxdepth * k, self.scale / k
        for i in (0, 1, 4, 5):
            self.factors[i] *= k
        self.images = [[small(NPRNG.rand(self.H, self.W, c)) * hi for _ in range(n)] for _ in range(2)]

    def make(self, image=0):
        faces = np.array(self.f)
        kw = dict(vertices=self.v.copy(), faces=faces, euler_init=self.euler.copy(), translation_init=self.trans.copy(), cregu=self.cregu,
                  inertia=self.inertia, damping=self.damping)
        if self.kind == "depth":
            x = self.classes[self.kind](**kw)
            x.set_max_depth(self.maxdepth)
            x.set_depth_scale(self.scale)
        else:
            kw.update(default_color=self.color.copy(), default_light_directional=self.light.copy(), default_light_ambient=self.ambient)
            if not self.default:
                kw.update(update_lights=self.lights, update_color=self.colored)
            if self.kind == "multi":
                kw["cdata"] = self.cdata
            x = self.classes[self.kind](**kw)
            x.set_background_color(self.bg.copy())
        (x.step_factor_vertices, x.step_max_vertices, x.step_factor_quaternion, x.step_max_quaternion, x.step_factor_translation,
         x.step_max_translation) = self.factors
        self.set_image(x, image)
        return x

    def set_image(self, x, image):
        im = [i.copy() for i in self.images[image]]
        if self.kind == "depth":
            x.set_image(im[0][:, :, 0], focal=self.focal, distortion=self.dist)
        elif self.kind == "rgb":
            x.set_image(im[0], focal=self.focal, distortion=self.dist)
        else:
            x.set_images(im, focal=self.focal)
        return im

    def state(self, x):
        rgb = self.kind != "depth"
        frames = (lambda a: nums(a)) if self.kind == "multi" else (lambda a: [nums(a)])
        return dict(v=nums(np.asarray(x.vertices)), q=frames(x.transform_quaternion), t=frames(x.transform_translation),
                    l=nums(x.light_directional) if rgb else [], a=[num(x.light_ambient)] if rgb else [], c=nums(x.mesh_color) if rgb else [])

    def pix(self):
        return [(i, j) for j in range(self.H) for i in range(self.W)]

    def frames(self, img, diff):
        if self.kind != "multi":
            img, diff = [img], [diff]
        px = self.pix()
        out = []
        for a, b in zip(img, diff):
            a = np.asarray(a).reshape(self.H, self.W, -1)
            out.append(dict(img=atpix(a, px), diff=[num(b[y, x]) for x, y in px]))
        return out

    def config(self, x, image=0):
        px = self.pix()
        fv, mv, fq, mq, ft, mt = nums(self.factors)
        bg = [num(self.maxdepth)] if self.kind == "depth" else nums(self.bg)
        return dict(kind=self.kind, m=M.desc(self.f, len(self.v), False), ref=nums(self.v), w=num(self.cregu), cam=camdesc(x.camera), bg=[bg for _ in px],
                    scale=num(self.scale), maxdepth=num(self.maxdepth), coef=num(Fraction(self.cdata) / self.n), inertia=num(self.inertia),
                    damping=num(self.damping), fv=fv, mv=mv, fq=fq, mq=mq, ft=ft, mt=mt, fl="1/10000", fc="1/100000",
                    lights=self.kind != "depth" and self.lights, color=self.kind != "depth" and self.colored,
                    imgs=[atpix(i, px) for i in self.images[image]], pix=[[int(i), int(j)] for i, j in px])


AWAY = dict(depth=[-0.5, 0, 5], rgb=[0, 0, 9], multi=[0, 0, 6])


def stay(w, x, n):
    """n steps that move nothing"""
    names = ["step_factor_vertices", "step_factor_quaternion", "step_factor_translation", "update_lights", "update_color"]
    kept = [getattr(x, k) for k in names]
    for k in names:
        setattr(x, k, 0.0 if k.startswith("step") else False)
    for _ in range(n):
        quiet(x.step)
    for k, a in zip(names, kept):
        setattr(x, k, a)


def fit(kind, n, classes=CLASSES, shifted=("rgb",), units=True, done=0):
    w = World(kind, classes=classes, units=units)
    attempt(dict(kind=kind, faces=w.f, v=w.v))

    def go():
        x = w.make()
        start = w.state(x)
        f = w.config(x)
        if done:
            stay(w, x, done)
        steps = []
        for _ in range(n):
            e, img, diff = quiet(x.step)
            steps.append(dict(n=w.state(x), energy=num(e), out=w.frames(img, diff)))
        return dict(start=start, f=f, steps=steps, done=done)

    status, r = guard(go)
    e = w.euler.reshape(-1, 3)
    rgb = kind != "depth"
    return dict(r if status == "ok" else dict(message=r), status=status, rot=[nums(euler_matrix(a)) for a in e], trans=nums(w.trans.reshape(-1, 3)),
                light=nums(w.light) if rgb else [], ambient=[num(w.ambient)] if rgb else [], color=nums(w.color) if rgb else [],
                away=nums(AWAY[kind]), shift=nums(w.trans) if kind in shifted else ["0", "0", "0"], focal=num(2 * w.W if w.focal is None else w.focal))


K = 10 if THOROUGH else 1
FAMILIES = {
    "depth": lambda: [fit("depth", 3) for _ in range(12 * K)],
    "rgb": lambda: [fit("rgb", 3) for _ in range(14 * K)],
    "multi": lambda: [fit("multi", 3) for _ in range(12 * K)] + [fit("multi", 2, done=499) for _ in range(3 * K)],
}
if __name__ == "__main__":
    write(FAMILIES[ARGS.family]())
