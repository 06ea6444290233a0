"""Sessions of the interactive viewer, recorded for TraceViewer.  OpenCV's window is replaced: its waitKey is where what the user does
happens, its imshow is what the user sees."""
import contextlib
import io
import pickle

from opengl import *  # noqa (headless OpenGL, textured meshes)

import cv2

import deodr.examples.mesh_viewer as mv
from deodr.opengl.moderngl import OffscreenRenderer

BUTTONS = dict(left=(cv2.EVENT_LBUTTONDOWN, cv2.EVENT_LBUTTONUP, cv2.EVENT_FLAG_LBUTTON), right=(cv2.EVENT_RBUTTONDOWN, cv2.EVENT_RBUTTONUP, cv2.EVENT_FLAG_RBUTTON),
               middle=(cv2.EVENT_MBUTTONDOWN, cv2.EVENT_MBUTTONUP, cv2.EVENT_FLAG_MBUTTON))
MODS = {"": 0, "ctrl": cv2.EVENT_FLAG_CTRLKEY, "shift": cv2.EVENT_FLAG_SHIFTKEY}


class Film:
    """stands for cv2.VideoWriter"""

    films = []

    def __init__(self, name, fourcc, fps, size, *a):
        open(name, "w").close()
        self.name, self.size, self.frames, self.closed, self.good = os.path.basename(name), tuple(size), [], False, True
        Film.films.append(self)

    def write(self, image):
        self.good &= not self.closed and image.dtype == np.uint8 and image.shape == (self.size[1], self.size[0], 3)
        self.frames.append(image.copy())

    def release(self):
        self.closed = True

    def isOpened(self):  # noqa
        return not self.closed


class World2(World):
    def __init__(self):
        while True:
            super().__init__((RNG.randint(3, 6), RNG.randint(3, 6)))
            z = self.v.max(axis=0) - self.v.min(axis=0)
            if z.min() > 0.05 * z.max():
                break
        self.lights = [(self.light, self.ambient), (small([RNG.uniform(-1, 1) for _ in range(3)]), float(small(RNG.uniform(0, 0.5))))]
        self.sizes = [(RNG.randint(48, 64), RNG.randint(40, 56)), (RNG.randint(48, 64), RNG.randint(40, 56))]
        if RNG.random() < 0.4:
            self.sizes[1] = (self.sizes[0][0], self.sizes[1][1] + 1) if RNG.random() < 0.5 else (self.sizes[1][0] + 1, self.sizes[0][1])
        self.fov = float(RNG.choice([60, 60, 45, RNG.randint(30, 100)]))
        self.offscreen = None

    def viewer(self, start):
        kw = dict(display_texture_map=False, display_fps=False, width=self.sizes[0][0], height=self.sizes[0][1], light_directional=tuple(float(x) for x in self.lights[0][0]),
                  light_ambient=self.lights[0][1], background_color=tuple(float(x) for x in self.bg), horizontal_fov=self.fov, video_pattern="film{id}.avi")
        names = dict(gl="use_moderngl", light="use_light", aa="use_antialiasing")
        usual = dict(gl=False, light=True, aa=True)
        kw.update({names[k]: start[k] for k in names if start[k] != usual[k] or RNG.random() < 0.5})
        self.given = self.mesh()
        self.before = [self.given.vertices.copy(), self.given.faces.copy(), self.given.uv.copy()]
        return mv.Viewer(self.given, **kw)

    def kept(self):
        return all(np.array_equal(a, b) for a, b in zip(self.before, [self.given.vertices, self.given.faces, self.given.uv]))

    def references(self, cam):
        """the picture of every display"""
        scene = Scene3D(sigma=0)
        scene.set_mesh(self.mesh())
        scene.set_background_color(tuple(float(x) for x in self.bg))
        scene.mesh.compute_vertex_normals()
        if self.offscreen is None:
            scene.set_light(self.lights[0][0].copy(), self.lights[0][1])
            self.offscreen = OffscreenRenderer()
            self.offscreen.set_scene(scene)
        c = Camera(extrinsic=cam.extrinsic.copy(), intrinsic=cam.intrinsic.copy(), width=cam.width, height=cam.height)
        for light in (0, 1, 2):
            d, a = self.lights[light - 1] if light else (np.zeros(3), 1.0)
            for aa in (False, True):
                for persp in (False, True):
                    scene.sigma, scene.perspective_correct = 1.0 if aa else 0.0, persp
                    scene.set_light(d.copy(), a)
                    yield dict(gl=False, light=light, persp=persp, aa=aa), (scene.render(c) * 255).astype(np.uint8)
            self.offscreen.set_light(np.array(d), a)
            yield dict(gl=True, light=light, persp=False, aa=False), self.offscreen.render(c)


class Over(Exception):
    pass


class Session:
    """a viewer in front of somebody who does ops = [(op, displacement)]"""

    def __init__(self, world, start, ops, look=True):
        self.w, self.start, self.ops, self.look = world, start, ops, look
        self.steps, self.n, self.size, self.callback, self.button, self.cam0 = [], 0, 0, None, None, None
        self.now = dict(op=dict(op="start", k="", m=""), d=["0", "0"])
        self.x, self.y = RNG.randint(15, 30), RNG.randint(15, 30)
        Film.films = []
        self.remove()

    def remove(self):
        for f in os.listdir("."):
            if f in ("scene.pickle", "camera.pickle") or (f.startswith("film") and f.endswith(".avi")):
                os.remove(f)

    # what OpenCV does
    def window(self, *a):
        return 1.0 if self.n <= len(self.ops) else -1.0

    def rect(self, *a):
        return (0, 0) + tuple(self.w.sizes[self.size])

    def listen(self, name, callback, *a):
        self.callback = callback

    def show(self, name, image):
        v, w = self.viewer, self.w
        cam = v.camera
        like = []
        if self.look:
            got = np.asarray(image)[:, :, ::-1].astype(int)
            mask = np.ones(got.shape[:2], bool)
            if Film.films and not Film.films[-1].closed:
                f = Film.films[-1].frames[-1] if Film.films[-1].frames else None
                mask[-31:-9, -31:-9] = False
                if f is None or f.shape != got.shape or not np.array_equal(f[:, :, ::-1][mask], got[mask]):
                    Film.films[-1].good = False
            for name, ref in w.references(cam):
                if ref.shape == got.shape and np.abs(ref.astype(int) - got)[mask].max() <= 1:
                    like.append(name)
        self.steps.append(dict(self.now, cam=camdesc(cam), like=like,
                               films=[dict(name=f.name, frames=len(f.frames), closed=f.closed, good=bool(f.good)) for f in Film.films]))
        if self.now["op"]["op"] == "key" and self.now["op"]["k"] == "d":
            with open("camera.pickle", "rb") as f:
                self.steps[-1]["saved"] = camdesc(pickle.load(f))
            with open("scene.pickle", "rb") as f:
                s = pickle.load(f)
            self.same = np.array_equal(s.mesh.vertices, w.v) and np.array_equal(s.mesh.texture, w.tex)

    def wait(self, *a):
        """the user does something; the key he presses, -1 if none"""
        if self.n >= len(self.ops):
            self.n += 1
            return -1
        o, d = self.ops[self.n]
        self.n += 1
        self.now = dict(op=o, d=[str(x) for x in d])
        flag = MODS[o["m"]]
        if o["op"] == "key":
            return ord(o["k"])
        if o["op"] == "down":
            self.button = BUTTONS[o["k"]]
            self.callback(self.button[0], self.x, self.y, self.button[2] | flag, None)
        elif o["op"] == "up":
            self.callback(self.button[1], self.x, self.y, flag, None)
            self.button = None
        elif o["op"] in ("move", "hover"):
            self.x, self.y = self.x + d[0], self.y + d[1]
            self.callback(cv2.EVENT_MOUSEMOVE, self.x, self.y, (self.button[2] if self.button else 0) | flag, None)
        elif o["op"] == "resize":
            self.size = o["k"] - 1
        elif o["op"] == "light":
            light = self.w.lights[o["k"] - 1]
            self.viewer.set_light(tuple(float(x) for x in light[0]), light[1])
        return -1

    def begin(self):
        self.viewer = self.w.viewer(self.start)
        self.viewer.register_key("c", self.viewer.recenter_camera)
        self.viewer.start()

    def run(self):
        stubs = dict(namedWindow=lambda *a, **k: None, resizeWindow=lambda *a, **k: None, destroyWindow=lambda *a: None, destroyAllWindows=lambda *a: None,
                     setMouseCallback=self.listen, getWindowImageRect=self.rect, getWindowProperty=self.window, imshow=self.show, waitKey=self.wait, waitKeyEx=self.wait,
                     pollKey=self.wait, VideoWriter=Film)
        was = {k: getattr(cv2, k) for k in stubs}
        fourcc = cv2.VideoWriter_fourcc
        self.same = True
        for k, x in stubs.items():
            setattr(cv2, k, x)
        try:
            Film.fourcc = staticmethod(fourcc)
            with contextlib.redirect_stdout(io.StringIO()):
                status, r = guard(self.begin)
        finally:
            for k, x in was.items():
                setattr(cv2, k, x)
            self.remove()
            r_ = getattr(getattr(self, "viewer", None), "offscreen_renderer", None)
            if r_ is not None:
                r_.ctx.release()
        if status == "ok" and not (self.same and self.w.kept()):
            status = "the mesh saved is not that of the scene" if not self.same else "the mesh that was given changed"
        self.message = r if status != "ok" else ""
        return status


def op(o, k="", m=""):
    return dict(op=o, k=k, m=m)


def vector(a, b):
    """rotation vector from the direction of a camera to that of another"""
    from scipy.spatial.transform import Rotation

    return Rotation.from_matrix(b.dot(a.T)).as_rotvec()


def gains(w):
    """what the gestures of the viewer are worth, measured on one gesture of each kind"""
    g = {}
    start = dict(gl=False, light=True, aa=True)

    def gesture(button, m, d, before=()):
        s = Session(w, start, [(x, (0, 0)) for x in before] + [(op("down", button, m), (0, 0)), (op("move", 1, m), d), (op("up"), (0, 0))], look=False)
        status = s.run()
        if status != "ok":
            return status, None, None
        f = [np.array([[eval_(x) for x in r] for r in st["cam"][k]]) for st in s.steps[-3:-1] for k in ("ext", "int")]
        return status, f[0::2], f[1::2]

    for name, args in dict(orbit=("left", "", (0, 16)), roll=("right", "", (16, 0)), look=("left", "", (0, 64), [op("key", "t")]),
                           dolly=("right", "", (0, 16)), pan=("left", "ctrl", (16, 0)), zoom=("right", "shift", (0, 8))).items():
        status, e, i = gesture(*args)
        if status != "ok":
            return status, {}
        d = max(args[2])
        r = vector(e[0][:, :3], e[1][:, :3])
        t = e[1][:, 3] - e[0][:, 3]
        z = e[0][2, :3].dot(w.centre) + e[0][2, 3]
        g[name] = float({"orbit": abs(r[0]), "roll": abs(r[2]), "look": abs(r[0]), "dolly": abs(t[2]), "pan": abs(t[0] / z),
                         "zoom": abs(np.log(i[1][0, 0] / i[0][0, 0]))}[name] / d)
    return "ok", g


def eval_(x):
    return float(Fraction(x))


def sessions():
    with open(ARGS.input) as f:
        cases = json.load(f)
    worlds = []
    for k in range(WORLDS // 2):
        w = World2()
        w.centre = 0.5 * (w.v.max(axis=0) + w.v.min(axis=0))
        attempt(dict(kind="gains", mesh=w.desc()))
        status, g = gains(w)
        worlds.append((w, status, g))
    traces = []
    for n, case in enumerate(cases):
        w, status, g = worlds[n % len(worlds)]
        radius = float(np.max(w.v.max(axis=0) - w.v.min(axis=0)))
        ds = {1: (3, -20), 2: (-20, 5), 3: (-7, 7), 4: (17, 11), 5: (0, 0), 6: (0, 1), 7: (-40, 3)}
        if RNG.random() < 0.5:
            ds = {k: (RNG.randint(-20, 20), RNG.randint(-20, 20)) for k in ds}
        ops = [(o, ds[o["k"]] if o["op"] == "move" else (4, -3) if o["op"] == "hover" else (0, 0)) for o in case["ops"]]
        tr = dict(start=case["start"], world=dict(c=nums(w.centre), radius=num(radius), fov=num(w.fov)), sizes=[[str(x) for x in z] for z in w.sizes], gains=nums_(g), len=len(ops), ops=case["ops"])
        attempt(tr)
        s = Session(w, case["start"], ops)
        if status == "ok":
            st = s.run()
            traces.append(dict(tr, status=st, message=s.message, steps=s.steps))
        else:
            traces.append(dict(tr, status=status, message="gestures", steps=[]))
    write(traces)


def nums_(g):
    return {k: num(x) for k, x in g.items()}


if __name__ == "__main__":
    sessions()
