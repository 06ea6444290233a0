"""The OpenGL back ends, recorded for TraceGL and TraceGLLife (the rendering of moderngl is really done, by a software OpenGL; pyrender's
last step, that needs an OpenGL which is not there, is replaced by one that records the scene it is given)."""
import mesh as M
import moderngl
import scene3d as S
from camera import rotation
from common import *  # noqa
from mesh import conditioned, desc, farray, manifold_simple
from scene3d import camdesc, small

from deodr.differentiable_renderer import Camera, Scene3D

K = 10 if THOROUGH else 1
create = moderngl.create_standalone_context


def headless(*a, **k):
    try:
        return create(*a, **dict(k, backend="egl"))
    except Exception:
        return create(*a, **k)


moderngl.create_standalone_context = headless


def intrinsics(W, H, f, skew=0.0):
    return np.array([[f, skew, small(W / 2 + RNG.uniform(-W / 4, W / 4))], [0, small(f * RNG.choice([1, RNG.uniform(0.7, 1.3)])), small(H / 2 + RNG.uniform(-H / 4, H / 4))], [0, 0, 1]])


def matrix():
    from deodr.opengl.moderngl import opencv_to_opengl_perspective

    W, H = RNG.randint(1, 60), RNG.randint(1, 60)
    cam = Camera(extrinsic=np.column_stack((rotation(), NPRNG.randn(3))), intrinsic=intrinsics(W, H, small(RNG.uniform(0.2, 3) * max(W, H)), 0.5 if RNG.random() < 0.07 else 0.0), width=W, height=H)
    zn = float(small(RNG.uniform(0.05, 2)))
    zf = zn + float(small(10 ** RNG.uniform(-1, 3)))
    icp = RNG.random() < 0.5
    x = [small([RNG.uniform(-2, 2), RNG.uniform(-2, 2), RNG.uniform(0.5, 1.5) * RNG.choice([zn, zf])]) for _ in range(6)]
    x = [p for p in x if p[2] > 0]
    e, i = cam.extrinsic.copy(), cam.intrinsic.copy()
    attempt(dict(kind="matrix", cam=camdesc(cam), zn=zn, zf=zf, icp=icp))
    status, m = guard(lambda: opencv_to_opengl_perspective(cam, zn, zf, icp))
    return dict(kind="matrix", cam=camdesc(cam), zn=num(zn), zf=num(zf), icp=icp, x=nums(x), status=status, m=nums(m) if status == "ok" else [],
                kept=bool(np.array_equal(e, cam.extrinsic) and np.array_equal(i, cam.intrinsic)))


class World:
    """a textured mesh, lights and options, and cameras in front of it"""

    def __init__(self, texsize=None, anyuv=0.15, maxfaces=8):
        flat = RNG.random() < 0.2
        scale = 1.0 if texsize else float(2.0 ** RNG.choice([0, 0, 1, -3, 6]))
        while True:
            f, v, cw = M.mesh(damage=0.3, isolated=0.0, several=0.2, pinch=0.0)
            v = small(v * np.array([RNG.uniform(0.5, 2) for _ in range(3)]))
            if flat:
                v[:, 2] = 0.25
                f = [list(x) for x in f]
            if len(f) <= maxfaces and manifold_simple(f) and M.guard(S.World.build, f, v * scale, cw)[0] == "ok" and (flat or conditioned(f, v)):
                a = v[np.array(f)]
                if np.linalg.norm(np.cross(a[:, 1] - a[:, 0], a[:, 2] - a[:, 0]), axis=1).min() > 0.05:
                    break
        self.f, self.v, self.cw = f, v * scale, cw
        self.TW, self.TH = texsize or (RNG.randint(2, 6), RNG.randint(2, 6))
        self.tex = small(NPRNG.rand(self.TH, self.TW, 3))
        self.tex.setflags(write=False)
        nuv = RNG.randint(3, 3 + len(v))
        lo, hi = (-0.5, -0.5) if RNG.random() < anyuv else (0, -1)
        self.uv = small(np.column_stack((NPRNG.uniform(lo, self.TW + hi, nuv), NPRNG.uniform(lo, self.TH + hi, nuv))))
        self.facesuv = np.array([RNG.sample(range(nuv), 3) for _ in f], dtype=np.uint32)
        self.light = small(RNG.choice([[RNG.uniform(-1, 1) for _ in range(3)]] * 3 + [[0, 0, 0], [0, 0, 0.75], [0, 0, -0.5], [0.5, 0, 0]]))
        if RNG.random() < 0.25:  # nearly along, or against, an axis
            self.light = np.round((np.eye(3)[RNG.choice([0, 1, 2, 2, 2])] * RNG.choice([1, -1]) + 10 ** RNG.uniform(-3, -0.5) * NPRNG.randn(3)) * 2**20) / 2**20
        self.ambient = float(small(RNG.uniform(0, 0.8)))
        self.icp = RNG.random() < 0.5
        self.bg = small(NPRNG.rand(3))

    def mesh(self):
        m = M.ColoredTriMesh(farray(self.f), self.v.copy(), clockwise=self.cw, faces_uv=self.facesuv.copy(), uv=self.uv.copy(), texture=self.tex)
        m.compute_vertex_normals()
        return m

    def scene(self, image=None):
        s = Scene3D(sigma=0, integer_pixel_centers=self.icp)
        s.set_mesh(self.mesh())
        s.set_light(self.light.copy(), self.ambient)
        if image is None:
            s.set_background_color(self.bg.copy())
        else:
            s.set_background_image(image)
        return s

    def desc(self):
        return dict(m=desc(self.f, len(self.v), self.cw), x=nums(self.v), light=nums(self.light), ambient=num(self.ambient), bgcolor=nums(self.bg), icp=self.icp,
                    uv=nums(self.uv), facesuv=ints(self.facesuv), tex=nums(self.tex.reshape(-1, 3)), TW=self.TW, TH=self.TH)


def lens(r):
    """distortion coefficients that tell at the radius r, often none of a kind"""
    d = small(np.array([RNG.uniform(-0.2, 0.2) for _ in range(5)]) / (1 if RNG.random() < 0.5 else np.array([r**2, r**4, r, r, r**6])), 256)
    if RNG.random() < 0.6:
        d *= np.array([RNG.random() < 0.5 for _ in range(5)])
    return d


def camera(v, W, H, distorted, facing=False):
    c, size = v.mean(axis=0), np.linalg.norm(v - v.mean(axis=0), axis=1).max()
    r = np.diag([1.0, -1, -1]) if facing else np.round(rotation() * 2**24) / 2**24
    if facing and RNG.random() < 0.3:
        r = np.eye(3)
    dist = size * RNG.uniform(1.5, 4)
    f = small(RNG.uniform(0.5, 1) * min(W, H) * dist / size)
    K_ = np.array([[f, 0, small(W / 2 + RNG.uniform(-2, 2))], [0, small(f * RNG.uniform(0.9, 1.1)), small(H / 2 + RNG.uniform(-2, 2))], [0, 0, 1]])
    d = lens(size / dist) if distorted else None
    return Camera(extrinsic=np.column_stack((r, small(np.array([0, 0, dist]) - r.dot(c), 256))), intrinsic=K_, width=W, height=H, distortion=d)


def copies(s, cam):
    m = s.mesh
    a = [m.faces, m.vertices, m.uv, m.faces_uv, m.texture, s.light_directional, cam.extrinsic, cam.intrinsic]
    a += [x for x in (s.background_color, s.background_image) if x is not None]
    return [np.array(x, copy=True) for x in a]


def handed():
    import pyrender

    import deodr.opengl.pyrender as dp

    w = World()
    W, H = RNG.randint(4, 40), RNG.randint(4, 40)
    cam = camera(w.v, W, H, RNG.random() < 0.07)
    if RNG.random() < 0.25:  # anywhere
        cam.extrinsic[:, 3] = small(NPRNG.randn(3))
    if RNG.random() < 0.07:
        cam.intrinsic[0, 1] = RNG.choice([0.5, -0.25])
    bg = None
    uniform = True
    if RNG.random() < 0.2:
        bg = np.ones((H, W, 3)) * w.bg
        if RNG.random() < 0.4:
            uniform = False
            bg[RNG.randrange(H), RNG.randrange(1, W), RNG.randrange(3)] += 0.125
    s = w.scene(bg)
    rec = {}
    marks = (object(), object())

    class Recorder:
        def __init__(self, viewport_width, viewport_height, *a, **k):
            rec["size"] = [int(viewport_width), int(viewport_height)]
            self.args = (viewport_width, viewport_height)

        def render(self, scene, *a, **k):
            cams = list(scene.camera_nodes)
            main = scene.main_camera_node or cams[0]
            meshes = list(scene.mesh_nodes)
            corners = []
            for node in meshes:
                pose = scene.get_pose(node)
                for p in node.mesh.primitives:
                    x = np.column_stack((p.positions, np.ones(len(p.positions)))).dot(pose.T)[:, :3]
                    n = p.normals.dot(pose[:3, :3].T)
                    for f in np.asarray(p.indices).astype(int).reshape(-1, 3):
                        corners.append([dict(x=nums(x[i]), n=nums(n[i]), uv=nums(p.texcoord_0[i])) for i in f])
                    t = p.material.baseColorTexture.source
                    rec["tex"] = nums(np.asarray(t).reshape(-1, t.shape[2]))
            rec.update(proj=nums(main.camera.get_projection_matrix(*self.args)), pose=nums(scene.get_pose(main)), corners=corners,
                       ambient=nums(np.asarray(scene.ambient_light)), bg=nums(np.asarray(scene.bg_color)),
                       lights=[dict(intensity=num(n.light.intensity), pose=nums(scene.get_pose(n))) for n in scene.light_nodes])
            return marks

        def delete(self):
            pass

    pyrender.offscreen.OffscreenRenderer = pyrender.OffscreenRenderer = Recorder
    before = copies(s, cam)
    q = dict(w.desc(), cam=camdesc(cam), C=3)
    depths = cam.world_to_camera(w.v)[:, 2]
    attempt(dict(kind="pyrender", q=q))
    status, r = guard(lambda: dp.render(s, cam))
    if status == "ok":
        rec["returned"] = bool(r[0] is marks[0] and r[1] is marks[1])
    else:
        rec = dict(message=r)
    return dict(kind="pyrender", q=q, icp=w.icp, distorted=cam.distortion is not None, uniform=uniform, status=status, rec=rec,
                infront=bool(depths.min() > 0.01 * depths.max()), kept=S.same(before, copies(s, cam)))


WORLDS = 12 * (3 if THOROUGH else 1)


def renderers():
    """histories of renderers"""
    from deodr.opengl.moderngl import OffscreenRenderer

    with open(ARGS.input) as f:
        cases = json.load(f)
    worlds, descs = [], []
    for _ in range(WORLDS):
        ts = (RNG.randint(2, 6), RNG.randint(2, 6))
        ws = [World(ts) for _ in range(2)]
        v = np.concatenate([w.v for w in ws])
        cams = []
        # (two images of one width, of one height, of as many pixels, or of different sizes)
        W, H, same = RNG.randint(24, 60), RNG.randint(24, 60), RNG.choice("wht-")
        while len(cams) < 2:
            w, h = W if same == "w" else RNG.randint(24, 60), H if same == "h" else RNG.randint(24, 60)
            if same == "t":
                w, h = (W, H) if cams else (H, W)
            c = camera(v, w, h, RNG.random() < 0.5, facing=RNG.random() < 0.4)
            z = c.world_to_camera(v)[:, 2]
            q = c.project_points(v)[0]
            if z.min() > 0.1 * z.max() and np.abs(q).max() < 1000:
                cams.append(c)
        worlds.append((ws, cams))
        descs.append(dict(scenes=[w.desc() for w in ws], cameras=[camdesc(c) for c in cams]))
    traces = []
    for n, ops in enumerate(cases):
        ws, cams = worlds[n % WORLDS]
        attempt(dict(world=n % WORLDS + 1, ops=ops))
        renderers_, helds = {}, {}
        steps = []
        for o in ops:
            k = o["k"] - 1
            rec = {}
            if o["op"] in ("scene", "mesh"):
                helds[o["r"]] = k
            held = helds[o["r"]]
            if o["r"] not in renderers_:
                renderers_[o["r"]] = OffscreenRenderer()
            r = renderers_[o["r"]]

            def go():
                if o["op"] == "scene":
                    r.set_scene(ws[k].scene())
                elif o["op"] == "light":
                    r.set_light(ws[k].light.copy(), ws[k].ambient)
                elif o["op"] == "mesh":
                    r.set_mesh(ws[k].mesh())
                elif o["op"] == "texture":
                    r.set_texture(ws[k].tex)
                else:
                    return r.render(cams[k])

            status, img = guard(go)
            if o["op"] == "render" and status == "ok":
                c = cams[k]
                w = ws[held]
                p = c.project_points(w.v)[0]
                pix = []
                for _ in range(16):
                    u = NPRNG.dirichlet([2.0, 2.0, 2.0]).dot(p[np.array(RNG.choice(list(w.f)))]) if RNG.random() < 0.85 else np.array([RNG.random() * c.width, RNG.random() * c.height])
                    u = np.clip(np.floor(u), 0, [c.width - 1, c.height - 1])
                    pix.append((int(u[0]), int(u[1])))
                ok = img.shape == (c.height, c.width, 3)
                rec = dict(size=list(img.shape), pix=[[x, y] for x, y in pix] if ok else [], img=[ints(img[y, x]) for x, y in pix] if ok else [])
            steps.append(dict(op=o, status=status if status == "ok" else f"{status} {img}", **rec))
        for r in renderers_.values():
            r.ctx.release()
        traces.append(dict(world=n % WORLDS + 1, steps=steps))
    return dict(worlds=descs, traces=traces)


FAMILIES = {"matrix": lambda: [matrix() for _ in range(300 * K)], "pyrender": lambda: [handed() for _ in range(150 * K)], "renderers": renderers}
if __name__ == "__main__":
    write(FAMILIES[ARGS.family]())
