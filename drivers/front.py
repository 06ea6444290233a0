"""The PyTorch front end, recorded for the specifications of what it computes."""
import mesh as M
import scene3d as S
import torch
from camera import camera as anycamera, desc as cdesc, points
from common import *  # noqa
from mesh import conditioned, desc, dyadic, farray, outside, viewpoints
from scene3d import atpix, same

from deodr.pytorch import CameraPytorch, ColoredTriMeshPytorch, LaplacianRigidEnergyPytorch, Scene3DPytorch
from deodr.pytorch.triangulated_mesh_pytorch import TriMeshAdjacenciesPytorch

torch.set_num_threads(1)


def leaf(a, grad=True):
    return torch.tensor(np.asarray(a, dtype=float), dtype=torch.float64, requires_grad=grad)


def arr(x):
    return x.detach().numpy()


def camera_of(c):
    return CameraPytorch(extrinsic=c.extrinsic.copy(), intrinsic=c.intrinsic.copy(), height=c.height, width=c.width,
                         distortion=None if c.distortion is None else np.array(c.distortion))


class World(S.World):
    """a scene without texture"""

    def __init__(self, **kw):
        while True:
            super().__init__(**kw)
            if not self.textured and self.light is not None:
                break

    def mesh(self):
        return ColoredTriMeshPytorch(farray(self.f), self.v.copy(), clockwise=self.cw, colors=self.colors.copy())

    def scene(self, m=None):
        s = Scene3DPytorch()
        s.sigma, s.perspective_correct, s.integer_pixel_centers = self.sigma, self.persp, self.intcenter
        s.set_mesh(m or self.mesh())
        if self.bgcolor:
            s.set_background_color(self.bg.copy())
        else:
            s.set_background_image(self.bg.copy())
        return s


def image(grad=False, depth=False):
    w = World(maxfaces=12 if grad else 20, grad=grad, depth=depth)
    pix = w.pixels()
    op = "depth" if depth else "render"
    attempt(dict(op=op, q=w.q(pix)))
    s = w.scene()
    x, c, l, a = leaf(w.v), leaf(w.colors), leaf(w.light), leaf(w.ambient)
    given = [x, c, l, a]
    before = [arr(y).copy() for y in given] + [w.cam.extrinsic.copy(), w.cam.intrinsic.copy()]
    adj = M.dyadic((w.H, w.W, 1 if depth else w.C), 2)

    def go():
        cam = camera_of(w.cam)
        s.mesh.set_vertices(x)
        if depth:
            img, z = s.render_depth(cam, depth_scale=w.scale, backface_culling=w.culling), None
        else:
            s.mesh.set_vertices_colors(c)
            s.set_light(l, a)
            if RNG.random() < 0.5:
                img, z = s.render(cam, return_z_buffer=True, backface_culling=w.culling)
            else:
                img, z = s.render(cam, backface_culling=w.culling), None
        out = dict(img=atpix(arr(img), pix))
        if z is not None:
            z = np.asarray(z.detach() if isinstance(z, torch.Tensor) else z)
            out["z"] = [num(z[i[1], i[0]]) for i in pix]
        if grad:
            k = 1.0
            if RNG.random() < 0.3:  # what happens to the image afterwards does not matter
                k = 4.0
                img.mul_(k)
            (img * torch.tensor(adj / k)).sum().backward()
            out["grads"] = dict(x=nums(arr(x.grad).ravel()))
            if not depth:
                out["grads"].update(colors=nums(arr(c.grad).ravel()), light=nums(arr(l.grad).ravel()), ambient=[num(a.grad)])
        return out

    status, r = guard(go)
    kept = same(before, [arr(y) for y in given] + [w.cam.extrinsic, w.cam.intrinsic])
    tr = dict(op=op, q=w.q(pix), status=status, rec=r if status == "ok" else dict(message=r), kept=bool(kept), tol=S.TOL, gtol=S.GTOL)
    if grad:
        d = lambda *shape: nums(M.dyadic(shape, 1))
        tr["adj"] = atpix(adj, pix)
        tr["dirs"] = dict(x=d(len(w.v), 3), colors=d(len(w.v), w.C), light=d(3), ambient=d(1), tex=[], uv=[])
    return tr


def project(grad=False):
    c = anycamera()
    before = cdesc(c)
    x0 = points(c, RNG.randint(1, 5))
    n = len(x0)
    cam = camera_of(c)
    imgb, depthb = dyadic((n, 2)), dyadic((n,)) if RNG.random() < 0.6 else None
    x = leaf(x0)
    attempt(dict(op="project", cam=before, x=x0))

    def go():
        if not grad:
            img, depth = cam.project_points(x)
            one = [cam.project_points(x[i : i + 1]) for i in range(n)]
            return dict(img=nums(arr(img)), depth=nums(arr(depth)), one=[nums(arr(o[0])[0]) for o in one], onedepth=[num(arr(o[1])[0]) for o in one],
                        nodepth=nums(arr(cam.project_points(x, return_depths=False))), cam3=nums(arr(cam.world_to_camera(x))))
        img, depth = cam.project_points(x)
        if RNG.random() < 0.5:
            cam.project_points(leaf(x0[::-1] * 1.25))
        loss = (img * torch.tensor(imgb)).sum()
        if depthb is not None:
            loss = loss + (depth * torch.tensor(depthb)).sum()
        loss.backward()
        return dict(xb=nums(arr(x.grad)))

    status, r = guard(go)
    tr = dict(r if status == "ok" else dict(message=r), op="gradient" if grad else "project", status=status, cam=before, x=nums(x0),
              kept=bool(np.array_equal(arr(x), x0) and cdesc(cam) == before))
    if grad:
        tr.update(imgb=nums(imgb), depthb=[] if depthb is None else nums(depthb))
        tr.setdefault("xb", [])
    return tr


def normals():
    while True:
        f, v, cw = M.mesh(twist=0.1, pinch=0.25)
        v = v * np.array([RNG.uniform(0.3, 3) for _ in range(3)])
        if conditioned(f, v) and len(f) <= 20 and outside(f, v, cw):
            break
    d = desc(f, len(v), cw)
    fnb, vnb, dx = dyadic((len(f), 3)), dyadic(v.shape), dyadic(v.shape, 1)
    attempt(dict(op="normals", m=d, x=v))
    x = leaf(v)

    def go():
        if RNG.random() < 0.5:
            a = TriMeshAdjacenciesPytorch(farray(f), cw, nb_vertices=len(v))
            fn = a.compute_face_normals(x)
            vn = a.compute_vertex_normals(fn)
        else:
            m = ColoredTriMeshPytorch(farray(f), v.copy(), clockwise=cw, colors=np.zeros((len(v), 1)))
            m.set_vertices(x)
            vn, fn = m.vertex_normals, m.face_normals
        (fb,) = torch.autograd.grad((fn * torch.tensor(fnb)).sum(), x, retain_graph=True)
        (vb,) = torch.autograd.grad((vn * torch.tensor(vnb)).sum(), x)
        return dict(fn=nums(arr(fn)), vn=nums(arr(vn)), fb=nums(arr(fb)), vb=nums(arr(vb)), mb=[])

    status, r = guard(go)
    return dict(r if status == "ok" else dict(message=r), op="normals", m=d, x=nums(v), status=status, d=nums(dx), fnb=nums(fnb), vnb=nums(vnb), times="1",
                kept=bool(np.array_equal(arr(x), v)))


def silhouette():
    f, v, cw, p = viewpoints()
    d = desc(f, len(v), cw)
    attempt(dict(op="silhouette", m=d, x=p))
    adj = guard(lambda: TriMeshAdjacenciesPytorch(farray(f), cw, nb_vertices=len(v)).edge_on_silhouette(leaf(p)))
    m = guard(lambda: ColoredTriMeshPytorch(farray(f), v, clockwise=cw, colors=np.zeros((len(v), 1))))
    if m[0] != "ok":  # looks inside: not the matter here
        m = guard(lambda: ColoredTriMeshPytorch(farray(f), v * np.array([1, 1, -1]), clockwise=cw, colors=np.zeros((len(v), 1))))
    s = guard(lambda: m[1].edge_on_silhouette(leaf(p)))
    return dict(op="silhouette", m=d, x=nums(p), status=s[0], flags=bools(s[1]) if s[0] == "ok" else [], astatus=adj[0], aflags=bools(adj[1]) if adj[0] == "ok" else [])


def rigid():
    f, v, cw = M.mesh(twist=0.1, isolated=0.1)
    d = desc(f, len(v), cw)
    w = RNG.choice([1.0, 2.5, 0.01, 2000.0, RNG.uniform(0, 10)])
    ref, x, dd = v.copy(), v + dyadic(v.shape) / 8, dyadic(v.shape)
    attempt(dict(op="rigid", m=d, x=x))
    r0 = ref.copy()
    way = RNG.choice(["plain", "returned", "automatic"])
    t = leaf(x, way != "plain")

    def go():
        m = ColoredTriMeshPytorch(farray(f), v.copy(), clockwise=cw, colors=np.zeros((len(v), 1)))
        e = LaplacianRigidEnergyPytorch(m, ref, w)
        if RNG.random() < 0.3:
            e.evaluate(leaf(ref, RNG.random() < 0.5))
        energy, grad, h = e.evaluate(t)
        hd = (h.matmul(torch.tensor(dd.flatten()[:, None])).numpy() if isinstance(h, torch.Tensor) else h.dot(dd.flatten())).reshape(x.shape)
        e0, g0, _ = e.evaluate(leaf(ref + dyadic((3,)), way != "plain"))
        if way == "automatic":
            energy.backward()
            grad = t.grad
        return dict(energy=num(energy), grad=nums(arr(grad)), hd=nums(hd), energy0=num(e0), grad0=nums(arr(g0)))

    status, r = guard(go)
    if status.startswith("raise") and "negative" in r:
        return rigid()
    return dict(r if status == "ok" else dict(message=r), op="rigid", m=d, ref=nums(r0), x=nums(x), w=num(w), d=nums(dd), status=status,
                kept=bool(np.array_equal(ref, r0) and np.array_equal(arr(t), x)))


def rotate():
    from deodr.pytorch.mesh_fitter_pytorch import qrot

    n = RNG.randint(1, 4)
    q = NPRNG.randn(RNG.randint(1, 3), 4)
    q /= np.linalg.norm(q, axis=1)[:, None]
    v, adj = S.small(NPRNG.randn(n, 3)), S.small(NPRNG.randn(len(q), n, 3))
    qs, vs = [leaf(a) for a in q], [leaf(v) for _ in q]

    def go():
        out = [qrot(a, b) for a, b in zip(qs, vs)]
        sum((o * torch.tensor(b)).sum() for o, b in zip(out, adj)).backward()
        o = nums(np.array([arr(x) for x in out]))
        return dict(out=o, all=o, qb=nums(np.array([arr(a.grad) for a in qs])), vb=nums(np.array([arr(a.grad) for a in vs])))

    s, r = guard(go)
    return dict(r if s == "ok" else dict(message=r), op="rotate", status=s, q=nums(q), v=nums(v), adj=nums(adj),
                kept=bool(all(np.array_equal(arr(a), b) for a, b in zip(qs, q)) and all(np.array_equal(arr(a), v) for a in vs)))


# ---------------------------------------------------------------- histories of renderings and backward passes
VIEWS, POSES, LIGHTS, ADJS = (1, 2), (1, 2), (1, 2), (1, 2)


class Tapes(World):
    def __init__(self):
        super().__init__(maxfaces=16, grad=True)
        self.C = 1
        self.colors = self.colors[:, :1].copy()
        self.bgcolor, self.bg = True, S.small(NPRNG.rand(1))
        self.cams = {1: self.cam, 2: S.camera(self.v, self.W + 1, self.H - 1)}
        self.poses = {1: self.v, 2: self.v + dyadic(self.v.shape) / 64}
        self.lights = {1: (self.light, self.ambient), 2: (S.small([RNG.uniform(-1.5, 1.5) for _ in range(3)]), 0.25)}
        self.adjs = {(v, a): dyadic((self.cams[v].height, self.cams[v].width, 1), 2) for v in VIEWS for a in ADJS}
        self.px = np.array([[RNG.randint(-3, 3) for _ in range(self.v.size)] for _ in range(3)], dtype=float)
        self.pc = np.array([[RNG.randint(-3, 3) for _ in range(self.colors.size)] for _ in range(3)], dtype=float)
        self.tab = dict(out={}, grad={})
        for kind in ("render", "depth"):
            self.tab["out"][kind] = [[[self.fresh(kind, v, p, l) for l in LIGHTS] for p in POSES] for v in VIEWS]
            self.tab["grad"][kind] = [[[[self.fresh(kind, v, p, l, a) for a in ADJS] for l in LIGHTS] for p in POSES] for v in VIEWS]

    def variables(self):
        x = {p: leaf(a) for p, a in self.poses.items()}
        l = {k: (leaf(a), leaf(b)) for k, (a, b) in self.lights.items()}
        return x, l, leaf(self.colors)

    def draw(self, s, kind, v):
        cam = camera_of(self.cams[v])
        return s.render(cam) if kind == "render" else s.render_depth(cam, depth_scale=self.scale)

    @staticmethod
    def digest(img):
        import hashlib
        a = np.ascontiguousarray(arr(img))
        return hashlib.sha1(str(a.shape).encode() + a.tobytes()).hexdigest()[:12]

    def start(self, var, p, l):
        s = self.scene()
        s.mesh.set_vertices(var[0][p])
        s.mesh.set_vertices_colors(var[2])
        s.set_light(*var[1][l])
        return s

    def gx(self, x):
        return nums(np.zeros(3) if x.grad is None else self.px.dot(arr(x.grad).ravel()))

    def gl(self, l):
        return nums(np.concatenate([np.zeros(y.numel()) if y.grad is None else arr(y.grad).ravel() for y in l]))

    def gc(self, c):
        return nums(np.zeros(3) if c.grad is None else self.pc.dot(arr(c.grad).ravel()))

    def fresh(self, kind, v, p, l, a=None):
        var = self.variables()
        img = self.draw(self.start(var, p, l), kind, v)
        if a is None:
            return self.digest(img)
        (img * torch.tensor(self.adjs[v, a])).sum().backward()
        return dict(x=self.gx(var[0][p]), l=self.gl(var[1][l]), c=self.gc(var[2]))

    def play(self, hist):
        attempt({"history": hist})
        var = self.variables()
        x, l, c = var
        s = self.start(var, 1, 1)
        tapes, kept, steps = [], [], []
        for y in [*x.values(), *[z for q in l.values() for z in q], c]:
            kept.append((y, arr(y).copy()))
        for o in hist:
            op, k, a = o["op"], o["k"], o["a"]
            st = dict(op=o, out="")

            def loss(n):
                v, img, _ = tapes[n]
                return (img * torch.tensor(self.adjs[v, a])).sum()

            def go():
                if op == "pose":
                    s.mesh.set_vertices(x[k])
                elif op == "light":
                    s.set_light(*l[k])
                elif op in ("render", "depth"):
                    img = self.draw(s, op, k)
                    tapes.append([k, img, True])
                    kept.append((img, arr(img).copy()))
                    st["out"] = self.digest(img)
                elif op == "zero":
                    for y in [*x.values(), *[z for q in l.values() for z in q], c]:
                        y.grad = None
                elif op == "all":
                    alive = [n for n in range(len(tapes)) if tapes[n][2]]
                    sum(loss(n) for n in alive).backward()
                    for n in alive:
                        tapes[n][2] = False
                else:
                    loss(k - 1).backward(retain_graph=op == "keep")
                    tapes[k - 1][2] = op == "keep"

            st["status"], msg = guard(go)
            if st["status"] != "ok":
                st["message"] = str(msg)[-300:]
            st.update(x=[self.gx(x[p]) for p in POSES], l=[self.gl(l[q]) for q in LIGHTS], c=self.gc(c),
                      kept=bool(all(np.array_equal(arr(y), z) for y, z in kept)))
            steps.append(st)
        return steps


def tapes():
    with open(ARGS.input) as f:
        hists = json.load(f)
    worlds = [Tapes() for _ in range(4)]
    out = [dict(world=n % len(worlds) + 1, steps=worlds[n % len(worlds)].play(h)) for n, h in enumerate(hists)]
    return dict(tables=[w.tab for w in worlds], traces=out, tol="1/1000000000")


K = 12 if THOROUGH else 1
FAMILIES = {
    "image": lambda: [image() for _ in range(40 * K)],
    "gradient": lambda: [image(grad=True) for _ in range(40 * K)],
    "depth": lambda: [image(depth=True) for _ in range(20 * K)] + [image(depth=True, grad=True) for _ in range(30 * K)],
    "project": lambda: [project() for _ in range(60 * K)] + [project(grad=True) for _ in range(60 * K)],
    "mesh": lambda: [f() for f in (normals, rigid, silhouette, silhouette) for _ in range(60 * K)],
    "rotations": lambda: [rotate() for _ in range(60 * K)],
    "tapes": tapes, "walks": tapes,
}
if __name__ == "__main__":
    write(FAMILIES[ARGS.family]())
