"""Replays the histories of MeshLife on real meshes."""
import hashlib

import mesh as M
from common import *  # noqa
from mesh import ColoredTriMesh, conditioned, farray


def digest(*a):
    h = hashlib.sha1()
    for x in a:
        x = np.ascontiguousarray(np.asarray(x, dtype=np.float64))
        h.update(str(x.shape).encode() + x.tobytes())
    return h.hexdigest()[:12]


def refined(m):
    n = m.subdivise(1)
    d = digest(n.faces, n.vertices, n.vertices_colors, n.vertex_normals)
    n.set_vertices(n.vertices * 2)  # nobody else's business
    n.set_vertices_colors(n.vertices_colors + 1)
    n.vertex_normals
    return d


class World:
    def __init__(self, kind, damage, several, close=False):
        while True:
            self.f, v, self.cw = M.mesh(kind=kind, damage=damage, several=several, isolated=0)
            self.pos = {k: v * np.array([1 + 0.3 * k, 1, 1 + 0.2 * (k % 2)]) + M.dyadic(v.shape) / 32 for k in (1, 2, 3)}
            if close:
                self.pos[2], self.pos[3] = beside(self.pos[1]), beside(self.pos[1])
            if len(self.f) <= 20 and M.manifold_simple(self.f) and all(conditioned(self.f, p) and M.outside(self.f, p, self.cw) for p in self.pos.values()):
                break
        self.lazy = RNG.random() < 0.5
        self.reuse = False
        self.col = {k: M.dyadic(v.shape) for k in (1, 2)}
        if close:
            self.col[2] = beside(self.col[1])
        self.adj = {k: M.dyadic(v.shape) for k in (1, 2)}
        self.view = {k: np.array([[RNG.randint(0, 6), RNG.randint(0, 6)] for _ in v], dtype=float) for k in (1, 2)}
        self.proj = np.array([[RNG.randint(-3, 3) for _ in range(v.size)] for _ in range(3)], dtype=float)
        fresh = lambda op, k=0, p=1, c=1: self.ask(self.make(p, c), dict(op=op, k=k))[1]
        self.tab = dict(
            face_normals=[fresh("face_normals", p=p) for p in (1, 2, 3)], vertex_normals=[fresh("vertex_normals", p=p) for p in (1, 2, 3)],
            volume=[fresh("volume", p=p) for p in (1, 2, 3)], silhouette=[fresh("silhouette", k) for k in (1, 2)], boundary=fresh("boundary"),
            subdivide=[[fresh("subdivide", p=p, c=c) for c in (1, 2)] for p in (1, 2, 3)],
            adj=[[self.contribution(p, a) for a in (1, 2)] for p in (1, 2, 3)],
            vertices=[digest(self.pos[k]) for k in (1, 2, 3)], colors=[digest(self.col[k]) for k in (1, 2)])

    def make(self, p, c):
        self.own = [self.pos[p].copy(), self.col[c].copy()]
        return ColoredTriMesh(farray(self.f), self.own[0], clockwise=self.cw, colors=self.own[1], compute_adjacencies=not self.lazy)

    def contribution(self, p, a):
        m = self.make(p, 1)
        m.vertex_normals
        m.compute_vertex_normals_backward(self.adj[a].copy())
        return nums(self.g(m)[1])

    def g(self, m):
        if not hasattr(m, "_vertices_b"):
            return False, []
        return True, [float(x) for x in self.proj.dot(np.asarray(m._vertices_b).ravel())]

    def ask(self, m, o, kept=None):
        """(status, identification of the answer)"""
        kept = [] if kept is None else kept

        def keep(x):
            kept.append((x, np.array(x, copy=True)))
            return x

        op, k = o["op"], o["k"]
        def given(n, x):
            """the caller's own array, written over and given again, or a new one"""
            if self.reuse:
                self.own[n][:] = x
                return self.own[n]
            return keep(x.copy())

        fn = dict(
            set=lambda: m.set_vertices(given(0, self.pos[k])), colors=lambda: m.set_vertices_colors(given(1, self.col[k])),
            backward=lambda: m.compute_vertex_normals_backward(keep(self.adj[k].copy())),
            face_normals=lambda: digest(keep(m.face_normals)), vertex_normals=lambda: digest(keep(m.vertex_normals)),
            volume=lambda: digest(m.compute_volume()), silhouette=lambda: digest(keep(m.edge_on_silhouette(keep(self.view[k].copy())))),
            boundary=lambda: digest(keep(m.adjacencies.boundary_edges())), subdivide=lambda: refined(m))[op]
        status, out = guard(fn)
        if status != "ok":
            return status, "refused"
        return status, out or ""

    def play(self, hist):
        m = self.make(1, 1)
        self.reuse = RNG.random() < 0.4
        kept, steps = [], []
        attempt({"history": hist})
        for o in hist:
            status, out = self.ask(m, o, kept)
            hasg, g = self.g(m)
            steps.append(dict(op=o, status=status, out=out, hasg=hasg, g=nums(g), vertices=digest(m.vertices), colors=digest(m.vertices_colors),
                              kept=all(np.array_equal(a, b) for a, b in kept)))
        return steps


def main():
    with open(ARGS.input) as f:
        hists = json.load(f)
    worlds = [World(0, 0, 0), World(3, 0, 0), World(2, 0, 0), World(5, 0.3, 0), World(7, 0, 0), World(1, 0, 0), World(RNG.choice([0, 3]), 0, 0, close=True)]
    out = [dict(world=n % len(worlds) + 1, steps=worlds[n % len(worlds)].play(h)) for n, h in enumerate(hists)]
    write(dict(tables=[w.tab for w in worlds], traces=out, tol="1/1000000000"))


main()
