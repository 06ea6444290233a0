"""Replays the histories of SceneLife on real 3D scenes."""
import hashlib
import itertools

import mesh as M
import scene3d as S
from common import *  # noqa
from mesh import farray

VIEWS, TWO, ADJS = (1, 2), (1, 2), (1, 2)
THINGS = ["mesh", "pose", "color", "light", "back", "width"]


def digest(*a):
    h = hashlib.sha1()
    for x in a:
        x = np.ascontiguousarray(np.asarray(x, dtype=np.float64))
        h.update(str(x.shape).encode() + x.tobytes())
    return h.hexdigest()[:12]


class World(S.World):
    def __init__(self, textured, dark=False, close=False):
        super().__init__(maxfaces=16, grad=True)
        self.textured = textured
        # depth images have one channel: the background colour must suit all renderings
        self.C = 1
        self.bgcolor, self.backs = True, {k: S.small(NPRNG.rand(1)) for k in TWO}
        if dark or RNG.random() < 0.5:
            self.backs[1 if dark else RNG.choice(TWO)] *= 0  # black
        if dark:
            self.sigma = 0.0
        self.widths = {1: self.sigma, 2: RNG.choice([x for x in (0.0, 0.0, 0.75, 1.0) if x != self.sigma])}
        self.meshes = {1: self.shape(self)}
        while 2 not in self.meshes:
            w = S.World(maxfaces=16, grad=True)
            # (both are seen, whichever is)
            w.v = S.small(w.v - w.v.mean(axis=0) + self.v.mean(axis=0))
            z = np.array([c.world_to_camera(w.v)[:, 2].min() for c in [self.cam]])
            if z.min() > 0.2 and not S.far(self.cam, w.v) and S.conditioned(w.f, w.v) and M.guard(self.build, w.f, w.v, w.cw)[0] == "ok":
                self.meshes[2] = self.shape(w)
        self.cams = {1: self.cam, 2: S.camera(np.concatenate([self.meshes[k]["pose"][1] for k in TWO]), self.W + 1, self.H - 1)}
        self.lights = {1: (None if self.light is None else self.light, self.ambient), 2: (S.small([RNG.uniform(-1.5, 1.5) for _ in range(3)]), 0.25)}
        self.adjs = {(v, a): M.dyadic((self.cams[v].height, self.cams[v].width, 1), 2) for v in VIEWS for a in ADJS}
        if close:  # the second of everything is nearly the first
            self.backs[2] = beside(self.backs[1])
            self.lights[2] = None if self.light is None else beside(self.light), self.ambient + 2.0**-26
            self.widths[2] = self.sigma + (2.0**-24 if self.sigma else 0)
            for d in self.meshes.values():
                d["pose"][2], d["color"][2] = beside(d["pose"][1]), beside(d["color"][1])
        self.proj = {}
        self.tab = dict(out={}, grad={})

    def table(self, kind, v, made):
        """what a fresh scene gives"""
        key = self.key(kind, v, made)
        if key not in self.tab["out"]:
            self.tab["out"][key] = self.fresh(kind, v, made)
            if kind != "deferred":
                self.tab["grad"][key] = [nums(self.fresh(kind, v, made, a)) for a in ADJS]

    @staticmethod
    def key(kind, v, made):
        return kind + "".join(map(str, (v,) + tuple(made)))

    def shape(self, w):
        """a mesh to be: faces, and its poses and colours (or textures)"""
        return dict(f=w.f, cw=w.cw, uv=w.uv, facesuv=w.facesuv, pose={1: w.v, 2: w.v + M.dyadic(w.v.shape) / 64},
                    color={k: S.small(NPRNG.rand(w.TH, w.TW, 1)) if self.textured else S.small(NPRNG.rand(len(w.v), 1)) for k in TWO})

    def made(self, k, pose=1, color=1):
        d = self.meshes[k]
        kw = dict(faces_uv=d["facesuv"].copy(), uv=d["uv"].copy(), texture=d["color"][color].copy()) if self.textured else dict(colors=d["color"][color].copy())
        return M.ColoredTriMesh(farray(d["f"]), d["pose"][pose].copy(), clockwise=d["cw"], compute_adjacencies=RNG.random() < 0.7, **kw)

    def fresh(self, kind, v, made, a=None):
        mesh, pose, color, light, back, width = made
        s = self.make(self.made(mesh, pose, color), light, back, width)
        out = self.draw(s, kind, v)
        if a is None:
            return digest(*out)
        self.back(s, kind, self.adjs[v, a].copy())
        return self.g(s, kind)

    def make(self, mesh, light=1, back=1, width=1):
        s = S.Scene3D(sigma=self.widths[width], perspective_correct=self.persp, integer_pixel_centers=self.intcenter)
        s.set_mesh(mesh)
        d, a = self.lights[light]
        s.set_light(None if d is None else d.copy(), a)
        s.set_background_color(self.backs[back].copy())
        return s

    def draw(self, s, kind, v):
        if kind == "render":
            return list(s.render(self.cams[v], return_z_buffer=True))
        if kind == "depth":
            return [s.render_depth(self.cams[v], depth_scale=self.scale)]
        sigma, s.sigma = s.sigma, 0
        try:
            r = s.render_deferred(self.cams[v], depth_scale=self.scale)
            return [r[k] for k in sorted(r)]
        finally:
            s.sigma = sigma

    @staticmethod
    def back(s, kind, b):
        (s.render_backward if kind == "render" else s.render_depth_backward)(b)

    def arrays(self, s, kind):
        a = [s.mesh._vertices_b]
        if kind == "render":
            a += [s.light_ambient_b, s.light_directional_b if s.light_directional is not None else 0]
            a += [s.scene_2d.texture_b, s.scene_2d.uv_b] if self.textured else [s.mesh.vertices_colors_b]
        return [np.asarray(x, dtype=float).ravel() for x in a]

    def g(self, s, kind):
        out = []
        for i, a in enumerate(self.arrays(s, kind)):
            if (i, a.size) not in self.proj:
                self.proj[i, a.size] = np.array([[RNG.randint(-3, 3) for _ in range(a.size)] for _ in range(3)], dtype=float)
            out += [float(x) for x in self.proj[i, a.size].dot(a)]
        return out

    def everything(self, s):
        """all the gradient arrays there are"""
        a = [getattr(s.mesh, "_vertices_b", None), s.mesh.vertices_colors_b, getattr(s, "light_ambient_b", None), getattr(s, "light_directional_b", None)]
        if hasattr(s, "scene_2d"):
            a += self.flat(s)
        return [None if x is None else np.array(x, copy=True) for x in a]

    @staticmethod
    def flat(s):
        d = s.scene_2d
        return [d.ij_b, d.uv_b, d.shade_b, d.colors_b, d.texture_b]

    def play(self, hist):
        attempt({"history": hist})
        objects = {}
        for k in TWO:  # one after the other, or when they are needed
            if k == 1 or RNG.random() < 0.5:
                objects[k] = self.made(k)
        at = 1
        now = dict(light=1, back=1, width=1)
        looks = {m: dict(pose=1, color=1) for m in TWO}
        s = self.make(objects[1])
        kept, steps = [], []

        def keep(x):
            kept.append((x, np.array(x, copy=True)))
            return x

        view = 1
        own = {k: m.vertices for k, m in objects.items()}
        reuse = RNG.random() < 0.4
        for n, o in enumerate(hist):
            op, k = o["op"], o["k"]
            if op == "mesh":
                if k not in objects:
                    objects[k] = self.made(k)
                    own[k] = objects[k].vertices
                at = k
            before = self.everything(s)
            st = dict(op=o, out="", g=[], zero=True)

            def go():
                if op == "pose" and reuse and n + 1 < len(hist) and hist[n + 1]["op"] in ("render", "depth", "deferred"):
                    own[at][:] = self.meshes[at]["pose"][k]  # the caller's own array, written over and given again
                    s.mesh.set_vertices(own[at])
                elif op == "pose":
                    s.mesh.set_vertices(keep(self.meshes[at]["pose"][k].copy()))
                elif op == "color" and self.textured:
                    s.mesh.texture = keep(self.meshes[at]["color"][k].copy())
                elif op == "color":
                    s.mesh.set_vertices_colors(keep(self.meshes[at]["color"][k].copy()))
                elif op == "mesh":
                    s.set_mesh(objects[k])
                elif op == "back":
                    s.set_background_color(keep(self.backs[k].copy()))
                elif op == "width":
                    s.sigma = self.widths[k]
                elif op == "light":
                    d, a = self.lights[k]
                    given = None if d is None else d.copy()
                    s.set_light(given if d is None or reuse else keep(given), a)
                    if d is not None and reuse:
                        given[:] = 3  # the caller's own array, used for something else
                elif op == "clear":
                    s.clear_gradients()
                    st["zero"] = bool(all(not np.any(x) for x in self.flat(s)))
                elif op in ("render_backward", "depth_backward"):
                    kind = "render" if op == "render_backward" else "depth"
                    self.back(s, kind, keep(self.adjs[view, k].copy()))
                    st["g"] = nums(self.g(s, kind))
                else:
                    r = self.draw(s, op, k)
                    for x in r:
                        keep(x)
                    st["out"] = digest(*r)

            st["status"], msg = guard(go)
            if op in now:
                now[op] = k
            elif op in ("pose", "color"):
                looks[at][op] = k
            elif op in ("render", "depth", "deferred"):
                view = k
                self.table(op, k, (at, looks[at]["pose"], looks[at]["color"], now["light"], now["back"], now["width"]))
            after = self.everything(s)
            st["unchanged"] = bool(len(before) == len(after) and all((a is None and b is None) or np.array_equal(a, b) for a, b in zip(before, after)))
            st["kept"] = bool(all(np.array_equal(a, b) for a, b in kept))
            if st["status"] != "ok":
                st["message"] = str(msg)[-300:]
            steps.append(st)
        return steps


def main():
    with open(ARGS.input) as f:
        hists = json.load(f)
    worlds = [World(k % 2 == 1, dark=k >= 4) for k in range(6)] + [World(k % 2 == 1, close=True) for k in range(2)]
    out = [dict(world=n % len(worlds) + 1, steps=worlds[n % len(worlds)].play(h)) for n, h in enumerate(hists)]
    write(dict(tables=[w.tab for w in worlds], traces=out, tol="1/1000000000"))


main()
