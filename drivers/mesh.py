"""What real meshes compute, recorded for TraceMesh."""
import copy

from common import *  # noqa

from deodr.laplacian_rigid_energy import LaplacianRigidEnergy
from deodr.triangulated_mesh import ColoredTriMesh, TriMesh, TriMeshAdjacencies

CUBE = [(0, 2, 1), (1, 2, 3), (4, 5, 6), (5, 7, 6), (0, 1, 4), (1, 5, 4), (2, 6, 3), (3, 6, 7), (0, 4, 2), (2, 4, 6), (1, 3, 5), (3, 7, 5)]


def grid(m, n):
    f = []
    for i in range(m):
        for j in range(n):
            a, b, c, d = i * (n + 1) + j, i * (n + 1) + j + 1, (i + 1) * (n + 1) + j, (i + 1) * (n + 1) + j + 1
            f += [(a, c, b), (b, c, d)] if RNG.random() < 0.5 else [(a, c, d), (a, d, b)]
    v = [(x + RNG.uniform(-0.2, 0.2), y + RNG.uniform(-0.2, 0.2), RNG.uniform(-0.5, 0.5)) for x in range(m + 1) for y in range(n + 1)]
    return f, v


def torus(m, n):
    f = []
    for i in range(m):
        for j in range(n):
            a, b, c, d = i * n + j, i * n + (j + 1) % n, ((i + 1) % m) * n + j, ((i + 1) % m) * n + (j + 1) % n
            f += [(a, c, b), (b, c, d)]
    t = [2 * np.pi * i / m for i in range(m)]
    u = [2 * np.pi * j / n for j in range(n)]
    v = [((3 + np.cos(q)) * np.cos(p), (3 + np.cos(q)) * np.sin(p), np.sin(q)) for p in t for q in u]
    return f, v


def bipyramid(n):
    f = [x for i in range(n) for x in ((i, (i + 1) % n, n), ((i + 1) % n, i, n + 1))]
    v = [(np.cos(2 * np.pi * i / n), np.sin(2 * np.pi * i / n), 0) for i in range(n)] + [(0, 0, 1.2), (0, 0, -0.8)]
    return f, v


def fan(n, closed=False):
    f = [(0, i, i + 1) for i in range(1, n + 1)]
    if closed:
        f[-1] = (0, n, 1)
    v = [(0, 0, 0.4)] + [(np.cos(i * 5.5 / n), np.sin(i * 5.5 / n), 0) for i in range(n + (0 if closed else 1))]
    return f, v


def mobius(n):
    f = []
    for i in range(n):
        a, b = 2 * i, 2 * i + 1
        c, d = (2 * i + 2, 2 * i + 3) if i < n - 1 else (1, 0)
        f += [(a, c, b), (b, c, d)]
    v = [((2 + s * np.cos(p / 2)) * np.cos(p), (2 + s * np.cos(p / 2)) * np.sin(p), s * np.sin(p / 2))
         for p in [2 * np.pi * i / n for i in range(n)] for s in (-0.5, 0.5)]
    return f, v


def ico():
    g = (1 + 5**0.5) / 2
    v = [(-1, g, 0), (1, g, 0), (-1, -g, 0), (1, -g, 0), (0, -1, g), (0, 1, g), (0, -1, -g), (0, 1, -g), (g, 0, -1), (g, 0, 1), (-g, 0, -1), (-g, 0, 1)]
    f = [(0, 11, 5), (0, 5, 1), (0, 1, 7), (0, 7, 10), (0, 10, 11), (1, 5, 9), (5, 11, 4), (11, 10, 2), (10, 7, 6), (7, 1, 8),
         (3, 9, 4), (3, 4, 2), (3, 2, 6), (3, 6, 8), (3, 8, 9), (4, 9, 5), (2, 4, 11), (6, 2, 10), (8, 6, 7), (9, 8, 1)]
    return f, v


BASES = [lambda: ([(0, 2, 1), (0, 3, 2), (0, 1, 3), (1, 2, 3)], [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]),
         lambda: (CUBE, [(x, y, z) for z in (0, 1) for y in (0, 1) for x in (0, 1)]),
         ico, lambda: bipyramid(RNG.choice([3, 4, 5, 6, 4, 5, 10])), lambda: torus(RNG.randint(3, 4), RNG.randint(3, 4)),
         lambda: grid(RNG.randint(1, 4), RNG.randint(1, 3)), lambda: fan(RNG.choice([1, 2, 3, 4, 5, 11])), lambda: fan(RNG.choice([3, 4, 5, 6, 12]), True),
         lambda: mobius(RNG.randint(4, 6)), lambda: ([(0, 1, 2)], [(0, 0, 0), (1, 0, 0), (0, 1, 0)])]
CLOSED = [0, 1, 2, 3, 4]


def union(a, b, shared=0):
    """two meshes side by side, sharing one vertex or none"""
    (f, v), (g, w) = a, b
    n = len(v) - shared
    off = np.array(v).max(axis=0) - np.array(w).min(axis=0) + 0.3
    w = (np.array(w) + off).tolist()
    if shared:
        w[0] = v[-1]
        v = v[:-1]
    return list(f) + [tuple(x + n for x in t) for t in g], list(v) + w


def mesh(kind=None, damage=0.5, isolated=0.15, twist=0.0, several=0.15, jitter=0.1, pinch=0.0):
    """faces, positions, clockwise: oriented consistently, looking outside (twist: may be broken)"""
    f, v = kind() if callable(kind) else BASES[RNG.randrange(len(BASES)) if kind is None else kind]()
    if RNG.random() < several:
        f, v = union((f, v), BASES[RNG.randrange(len(BASES))](), RNG.randrange(2))
    f = [tuple(t) for t in f]
    v = [tuple(float(c) + RNG.uniform(-jitter, jitter) for c in p) for p in v]
    if RNG.random() < damage and len(f) > 1:
        for _ in range(RNG.randint(1, max(1, len(f) // 3))):
            if len(f) > 1:
                f.pop(RNG.randrange(len(f)))
    if RNG.random() < twist:
        k = RNG.randrange(len(f))
        a = f[k]
        how = RNG.randrange(4)
        if how == 0:
            f[k] = (a[0], a[2], a[1])
        elif how == 1:
            f.append(a)
        elif how == 2:
            f.append((a[1], a[0], a[2]))
        else:
            o = [i for i in range(len(v)) if i not in a]
            if o:
                f.append((a[0], a[1], RNG.choice(o)))
    if RNG.random() < pinch:  # faces without area
        a, b, _ = f[RNG.randrange(len(f))]
        v[b] = v[a]
    if RNG.random() >= isolated:  # forget the vertices without faces
        used = sorted({i for t in f for i in t})
        nb = {i: k for k, i in enumerate(used)}
        f, v = [tuple(nb[i] for i in t) for t in f], [v[i] for i in used]
    elif RNG.random() < 0.5:
        v.append((1.0, 2.0, 3.0))
    p = list(range(len(v)))
    if RNG.random() < 0.7:
        RNG.shuffle(p)
        w = [None] * len(v)
        for i, k in enumerate(p):
            w[k] = v[i]
        v = w
        RNG.shuffle(f)
    cw = RNG.random() < 0.5
    g = []
    for t in f:
        t = tuple(p[i] for i in t)
        r = RNG.randrange(3)
        t = t[r:] + t[:r]
        g.append((t[0], t[2], t[1]) if cw else t)
    return g, np.array(v), cw


def desc(f, nv, cw):
    return dict(nv=int(nv), faces=[[int(i) for i in t] for t in f], cw=bool(cw))


def dyadic(shape, k=4):
    return np.array([RNG.randint(-4 * k, 4 * k) / k for _ in range(int(np.prod(shape)))]).reshape(shape)


def farray(f, nv=0):
    m = max([nv - 1] + [int(i) for t in f for i in t])
    t = [np.int64, np.int32, np.uint32, np.int64, np.uint64, np.int16, np.uint16]
    t += [np.uint8] * 2 if m < 256 else []
    t += [np.int8] * 2 if m < 128 else []
    t = [i for i in t if m <= np.iinfo(i).max]
    a = np.array(f, dtype=t[RNG.randrange(len(t))])
    return np.asfortranarray(a) if RNG.random() < 0.2 else a


def coo(m, vals=True):
    m = m.tocoo() if hasattr(m, "tocoo") else np.asarray(m)
    m = m.copy()
    m.sum_duplicates()
    return [[int(i), int(j)] + ([as_int(x)] if vals else []) for i, j, x in zip(m.row, m.col, m.data) if x != 0]


def as_int(x):
    assert float(x) == int(x), x
    return int(x)


def topology(case=None):
    if case is None:
        f, v, cw = mesh(twist=0.4, isolated=0.3)
        if RNG.random() < 0.02:  # very many neighbours
            n = RNG.choice([130, 260])
            f, v, cw = mesh(kind=lambda: fan(n, RNG.random() < 0.5), isolated=0, several=0, twist=0)
        nv = len(v)
    else:
        nv, cw = case["nv"], RNG.random() < 0.5
        f = []
        for t in case["faces"]:
            r = RNG.randrange(3)
            f.append(tuple(t[r:] + t[:r]))
        RNG.shuffle(f)
    d = desc(f, nv, cw)
    attempt(dict(op="topology", m=d))
    big, total = list(range(nv)), nv
    if case is None and RNG.random() < 0.2:  # few faces of a mesh with many vertices
        total = RNG.choice([40, 300, 5000, 70000, 150000])
        big = RNG.sample(range(max(total, nv)), nv)
        total = max(total, nv)
        pairs = [(a, b) for a in f for b in f if not set(a) & set(b)]
        if pairs and RNG.random() < 0.7:  # two edges whose numbers agree modulo a power of two, were they counted by their ends
            bits = RNG.choice([16, 32])
            total = RNG.randint(300, 3000) if bits == 16 else RNG.randint(70000, 150000)
            a, b = RNG.choice(pairs)
            step = -(-(1 << bits) // total)
            rest = total * step - (1 << bits)
            low = RNG.randrange(total - step - rest - 1) if total > step + rest + 1 else -1
            if low >= 0:
                high = RNG.randint(low + step + 1, total - rest - 1) if low + step + 1 <= total - rest - 1 else -1
                if high > 0 and high + rest not in (low, low + step):
                    want = {a[0]: low + step, a[1]: high, b[0]: low, b[1]: high + rest}
                    free = [i for i in RNG.sample(range(total), 5 * nv + 50) if i not in want.values()]
                    if len(set(want.values())) == 4:
                        big = [want.get(i, free[i]) for i in range(nv)]
        big = big if max(big) < total else list(range(nv))
    rows = []
    others = None
    if case is None and total == nv and RNG.random() < 0.04:  # among a great many closed pieces
        k = RNG.choice([40, 70, 9000, 17000])
        total = nv + 4 * k
        order = NPRNG.permutation(total)
        big = [int(i) for i in order[:nv]]
        w = order[nv:].reshape(k, 4)
        others = np.concatenate([w[:, t] for t in ((0, 2, 1), (0, 3, 2), (0, 1, 3), (1, 2, 3))])
        rows = sorted(RNG.sample(range(len(f) + len(others)), len(f)))
    back = {b: i for i, b in enumerate(big)}
    short = lambda i: back.get(int(i), nv)
    fa = farray([tuple(big[i] for i in t) for t in f], total if others is not None else 0)
    if others is not None:
        every = np.empty((len(f) + len(others), 3), fa.dtype)
        rest = np.ones(len(every), bool)
        rest[rows] = False
        every[rows], every[rest] = fa, others
        fa = every
    f0 = fa.copy()

    def degrees(d):
        d = np.asarray(d).ravel()
        return [as_int(d[b]) for b in big] + [as_int(x) for i, x in enumerate(d) if x != 0 and i not in back and others is None] if len(d) == total else [-1]

    def go():
        if total > nv:
            a = TriMeshAdjacencies(fa, cw, nb_vertices=total)
        elif max(max(t) for t in f) == nv - 1 and RNG.random() < 0.5:
            a = TriMeshAdjacencies(fa, clockwise=cw)
        elif RNG.random() < 0.5:
            a = TriMeshAdjacencies(fa, cw, nb_vertices=nv)
        else:
            v = np.array([[i, i * i % 7, -i * i % 5] for i in range(nv)], dtype=float)
            try:
                a = TriMesh(fa, v, clockwise=cw).adjacencies
            except BaseException:  # a closed mesh looking inside
                a = TriMesh(fa, v, clockwise=not cw).adjacencies
        b = np.asarray(a.boundary_edges())
        fe = np.asarray(a.faces_edges)
        if others is not None:
            return among(a, b, fe)
        return dict(nbv=nv if a.nb_vertices == total else int(a.nb_vertices), nbf=int(a.nb_faces), nbe=int(a.nb_edges),
                    edges=[[short(i) for i in e] for e in ints(a.edges)], fe=ints(fe), ef=coo(a.edges_faces_ones),
                    ev=[[e, short(i)] for e, i in coo(a.edges_vertices_ones, False)], adj=[[short(i), short(j), x] for i, j, x in coo(a.adjacency_vertices)],
                    dve=degrees(a.degree_v_e), dvf=degrees(a.degree_v_f), lap=[[short(i), short(j), x] for i, j, x in coo(a.laplacian)],
                    manifold=bool(a.is_manifold), closed=bool(a.is_closed), hasb=bool(a.hasBoundaries), border=[[short(i) for i in e] for e in ints(b)])

    def among(a, b, fe):
        """what concerns the mesh itself"""
        n = len(others)
        edges = ints(a.edges)
        mine = [i for i, e in enumerate(edges) if e[0] in back]
        number = {i: k for k, i in enumerate(mine)}
        place = {i: k for k, i in enumerate(rows)}
        stray = len(edges)
        matrix = lambda m: [[back[i], back.get(j, nv), x] for i, j, x in coo(m) if i in back]
        return dict(nbv=nv if a.nb_vertices == total else int(a.nb_vertices), nbf=int(a.nb_faces) - n, nbe=int(a.nb_edges) - 6 * (len(others) // 4),
                    edges=[[short(i) for i in edges[k]] for k in mine], fe=[[number.get(int(i), stray) for i in fe[k]] for k in rows],
                    ef=[[number[e], place.get(i, stray), x] for e, i, x in coo(a.edges_faces_ones) if e in number],
                    ev=[[number[e], short(i)] for e, i in coo(a.edges_vertices_ones, False) if e in number], adj=matrix(a.adjacency_vertices),
                    dve=degrees(a.degree_v_e), dvf=degrees(a.degree_v_f), lap=matrix(a.laplacian), manifold=bool(a.is_manifold), closed=bool(a.is_closed),
                    hasb=bool(a.hasBoundaries), border=[[short(i) for i in e] for e in ints(b)])

    status, r = guard(go)
    if status != "ok":
        return dict(op="topology", m=d, status=status, message=r)
    assert np.array_equal(fa, f0)
    return dict(r, op="topology", m=d, status="ok")


def volume():
    k = RNG.randrange(3)
    f, v, cw = mesh(kind=RNG.choice(CLOSED), damage=0.2, several=0.3, isolated=0.1)
    if k == 1:
        cw = not cw
    if k == 2:
        v = dyadic(v.shape)
    v = v + dyadic((3,)) * RNG.choice([0, 1])
    if RNG.random() < 0.08:  # without volume
        v[:, RNG.randrange(3)] = 0
    lazy = RNG.random() < 0.3
    d, u = desc(f, len(v), cw), unit()
    v = v * u
    attempt(dict(op="volume", m=d, x=v))
    box = {}

    def make():
        box["m"] = TriMesh(farray(f), v, clockwise=cw, compute_adjacencies=not lazy)
        return box["m"].adjacencies

    made, _ = guard(make)
    status, vol = guard(lambda: box["m"].compute_volume()) if made == "ok" else ("none", 0)
    return dict(op="volume", m=d, x=nums(v / u), made=made, status=status, vol=num(vol / u**3) if status == "ok" else "0")


def conditioned(f, v):
    """no face or vertex normal that is nearly undetermined"""
    fa = np.array(f)
    n = np.cross(v[fa[:, 1]] - v[fa[:, 0]], v[fa[:, 2]] - v[fa[:, 0]])
    s = np.linalg.norm(n, axis=1)
    ok = s > 0
    if not ok.any() or s[ok].min() < 0.02:
        return False
    a = np.zeros(v.shape)
    np.add.at(a, fa[ok].ravel(), np.repeat(n[ok] / s[ok, None], 3, axis=0))
    return np.linalg.norm(a[np.unique(fa[ok])], axis=1).min() > 0.05


def outside(f, v, cw):
    """open, or looking outside (clearly)"""
    s = {(t[i], t[(i + 1) % 3]) for t in f for i in range(3)}
    return any((b, a) not in s for a, b in s) or np.sum(np.linalg.det(v[np.array(f)])) * (-1 if cw else 1) > 1e-6


def normals():
    while True:
        f, v, cw = mesh(twist=0.1, pinch=0.25)
        v = v * np.array([RNG.uniform(0.3, 3) for _ in range(3)])
        if conditioned(f, v) and len(f) <= 20 and outside(f, v, cw):
            break
    d = desc(f, len(v), cw)
    fnb, vnb, dx = dyadic((len(f), 3)), dyadic(v.shape), dyadic(v.shape, 1)
    u = unit()
    v = v * u
    attempt(dict(op="normals", m=d, x=v))
    loud = loudness()
    fnb, vnb = fnb * loud, vnb * loud
    v0, a0, b0 = v.copy(), fnb.copy(), vnb.copy()
    times = RNG.randint(1, 2)

    def go():
        with np.errstate(all="ignore"):
            a = TriMeshAdjacencies(farray(f), cw, nb_vertices=len(v))
            fn = a.compute_face_normals(v)
            vn = a.compute_vertex_normals(fn)
            fb = a.compute_face_normals_backward(fnb)
            vb = a.compute_face_normals_backward(a.compute_vertex_normals_backward(vnb))
            mb = []
            if not a.is_closed or True:
                m = TriMesh(farray(f), v, clockwise=cw)
                if RNG.random() < 0.5:
                    m.face_normals
                m.vertex_normals
                for _ in range(times):
                    m.compute_vertex_normals_backward(vnb)
                if hasattr(m, "_vertices_b"):
                    mb = nums(m._vertices_b * u / loud)
                assert np.array_equal(np.asarray(m.face_normals), fn)
            return dict(fn=nums(fn), vn=nums(vn), fb=nums(fb * u / loud), vb=nums(vb * u / loud), mb=mb)

    status, r = guard(go)
    return dict(r if status == "ok" else dict(message=r), op="normals", m=d, x=nums(v0 / u), status=status, d=nums(dx), fnb=nums(a0 / loud), vnb=nums(b0 / loud), times=num(times),
                kept=bool(np.array_equal(v, v0) and np.array_equal(fnb, a0) and np.array_equal(vnb, b0)))


def viewpoints():
    f, v, cw = mesh(twist=0.2, isolated=0.1)
    k = RNG.randrange(3)
    if k == 0:
        p = np.array([[RNG.randint(0, 6), RNG.randint(0, 6)] for _ in v], dtype=float)
    else:
        q, _ = np.linalg.qr(np.array([[RNG.gauss(0, 1) for _ in range(3)] for _ in range(3)]))
        p = np.round(v.dot(q)[:, :2] * (64 if k == 1 else 3)) / 4
    if RNG.random() < 0.3:  # very small, or far from the origin
        p = p * 2.0 ** RNG.choice([-30, -12, 12]) if RNG.random() < 0.5 else p * 2.0 ** RNG.choice([-12, -6]) + [RNG.randint(-9, 9) * 512, RNG.randint(-9, 9) * 512]
    return f, v, cw, p


def silhouette():
    f, v, cw, p = viewpoints()
    d = desc(f, len(v), cw)
    attempt(dict(op="silhouette", m=d, x=p))
    adj = guard(lambda: TriMeshAdjacencies(farray(f), cw, nb_vertices=len(v)).edge_on_silhouette(p))
    m = guard(lambda: TriMesh(farray(f), v, clockwise=cw))
    if m[0] != "ok":  # looks inside: not the matter here
        m = guard(lambda: TriMesh(farray(f), v * np.array([1, 1, -1]), clockwise=cw))
    s = guard(lambda: m[1].edge_on_silhouette(p))
    return dict(op="silhouette", m=d, x=nums(p), status=s[0], flags=bools(s[1]) if s[0] == "ok" else [], astatus=adj[0], aflags=bools(adj[1]) if adj[0] == "ok" else [])


def rigid():
    f, v, cw = mesh(twist=0.1, isolated=0.1)
    d = desc(f, len(v), cw)
    w = RNG.choice([1.0, 2.5, 0.01, 2000.0, RNG.uniform(0, 10), 0.0])
    u, e = unit(), unit()  # of length and of energy
    ref, x, dd = v * u, (v + dyadic(v.shape) / 8) * u, dyadic(v.shape)
    v = ref.copy()
    attempt(dict(op="rigid", m=d, x=x))
    r0, r1, x0 = ref.copy(), ref.copy(), x.copy()

    def go():
        m = TriMesh(farray(f), v, clockwise=cw, compute_adjacencies=RNG.random() < 0.7)
        rigidity = LaplacianRigidEnergy(m, ref, w * e)
        if RNG.random() < 0.3:
            rigidity.evaluate(ref)
        if RNG.random() < 0.4:  # its owner goes on using the array
            r1[:] += 1 + dyadic(ref.shape)
            ref[:] = r1
        energy, grad, h = rigidity.evaluate(x)
        hd = np.asarray(h.dot(dd.flatten())).reshape(x.shape)
        e0, g0, _ = rigidity.evaluate(r0 + dyadic((3,)) * u)
        return dict(energy=num(energy / u**2 / e), grad=nums(np.asarray(grad) / u / e), hd=nums(hd / e), energy0=num(e0 / u**2 / e), grad0=nums(np.asarray(g0) / u / e))

    status, r = guard(go)
    if status.startswith("raise") and "negative" in r:
        return rigid()
    return dict(r if status == "ok" else dict(message=r), op="rigid", m=d, ref=nums(r0 / u), x=nums(x0 / u), w=num(w), d=nums(dd), status=status,
                kept=bool(np.array_equal(ref, r1) and np.array_equal(x, x0)))


def state(m):
    return [np.array(x, copy=True) for x in (m.faces, m.vertices)] + ([np.array(m.vertices_colors, copy=True)] if m.vertices_colors is not None else [])


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))


def manifold_simple(f):
    sides = [(t[i], t[(i + 1) % 3]) for t in f for i in range(3)]
    return len(set(sides)) == len(sides) and len({frozenset(t) for t in f}) == len(f)


def connected(f, nv):
    seen, todo = {0}, [0]
    while todo:
        v = todo.pop()
        for w in {i for t in f if v in t for i in t} - seen:
            seen.add(w)
            todo.append(w)
    return len(seen) == nv


def refined(m, n, u):
    """judge n as the refinement of m, in the unit u"""
    cols = lambda q: [] if q.vertices_colors is None else nums(q.vertices_colors)
    return dict(op="subdivide", m=desc(m.faces, m.nb_vertices, m.clockwise), x=nums(m.vertices / u), c=cols(m), status="ok",
                n=desc(n.faces, n.nb_vertices, n.clockwise), y=nums(n.vertices / u), yc=cols(n), closed=bool(n.adjacencies.is_closed), manifold=bool(n.adjacencies.is_manifold))


def subdivide(case=None):
    if case is None:
        while True:
            crowd = RNG.random() < 0.15  # a vertex with many neighbours
            if crowd:
                n = RNG.randint(8, 13)
                f, v, cw = mesh(kind=lambda: RNG.choice([bipyramid(n), fan(2 * n, RNG.random() < 0.7)]), damage=0.2, isolated=0, twist=0, several=0)
            else:
                f, v, cw = mesh(kind=RNG.choice([None] * 4 + [3, 7]), isolated=0.2, twist=0)
            if len(f) <= 26:
                break
    else:
        f, cw, nv = [tuple(t) for t in case["faces"]], RNG.random() < 0.5, case["nv"]
        v = np.array([[i, (i * i) % 7, (3 * i * i) % 5] for i in range(nv)], dtype=float) + dyadic((nv, 3), 16) / 8
    d, u = desc(f, len(v), cw), unit()
    v = v * u
    attempt(dict(op="subdivide", m=d, x=v))
    m = None
    for s in (1, -1):
        st, m = guard(lambda: ColoredTriMesh(farray(f), v * np.array([1, 1, s]), clockwise=cw, nb_colors=3,
                                             colors=None if RNG.random() < 0.3 else dyadic(v.shape)))
        if st == "ok":
            break
    before = state(m)
    n = RNG.choice([1, 1, 1, 2, 0]) if len(f) <= 6 else 1
    if len(f) <= 2 and RNG.random() < 0.25:
        n = 3
    out = []
    status, r = guard(lambda: [m.subdivise(k) for k in range(n + 1)])
    kept = same(before, state(m))
    if status != "ok":
        return [dict(op="subdivide", m=d, x=nums(v), c=[], status=status, message=r)]
    for k in range(n):
        out.append(dict(refined(r[k], r[k + 1], u), kept=kept and same(state(r[0]), before)))
    return out


def usable(c):
    return manifold_simple(c["faces"]) and {i for t in c["faces"] for i in t} == set(range(c["nv"]))


def compact(c):
    used = sorted({i for t in c["faces"] for i in t})
    nb = {i: k for k, i in enumerate(used)}
    return dict(nv=len(used), faces=[[nb[i] for i in t] for t in c["faces"]])


def cases():
    with open(ARGS.input) as f:
        return json.load(f)


K = 15 if THOROUGH else 1
FAMILIES = {
    "topology": lambda: [topology() for _ in range(200 * K)],
    "enumerated": lambda: [topology(c) for c in cases()],
    "volume": lambda: [volume() for _ in range(200 * K)],
    "normals": lambda: [normals() for _ in range(150 * K)],
    "silhouette": lambda: [silhouette() for _ in range(250 * K)],
    "rigid": lambda: [rigid() for _ in range(150 * K)],
    "subdivide": lambda: [t for _ in range(60 * K) for t in subdivide()],
    "refined": lambda: [t for c in map(compact, cases()) if usable(c) for t in subdivide(c)],
}
if __name__ == "__main__":
    write(FAMILIES[ARGS.family]())
