"""Conversions between deodr and trimesh meshes, recorded for TraceConvert."""
import os
import shutil
import tempfile

import mesh as M
import PIL.Image
import trimesh
from common import *  # noqa

from deodr import ColoredTriMesh


def shape(cw=False):
    while True:
        f, v, w = M.mesh(isolated=0.05, several=0.3, damage=0.3)
        v = np.round(v * 64) / 64
        if w:
            f = [(a, c, b) for a, b, c in f]
        if len({tuple(p) for p in v.tolist()}) == len(v) and len(f) <= 24 and M.outside(f, v, False):
            return ([(a, c, b) for a, b, c in f] if cw else f), v


def seams(f, n, split):
    """per corner, the number of an instance of its vertex: each vertex is cut in up to split copies"""
    inst = {}
    rows, out = [], []
    for t in f:
        g = []
        for i in t:
            k = (i, RNG.randrange(split))
            if k not in inst:
                inst[k] = len(rows)
                rows.append(i)
            g.append(inst[k])
        out.append(tuple(g))
    return out, rows


def texture(channels):
    return NPRNG.randint(0, 256, (RNG.randint(1, 5), RNG.randint(1, 5), channels)).astype(np.uint8)


def mrec(m):
    return dict(v=nums(m.vertices), f=ints(m.faces), fuv=[] if m.faces_uv is None else ints(m.faces_uv), uv=[] if m.uv is None else nums(m.uv),
                tex=[] if m.texture is None else nums(np.asarray(m.texture, dtype=float)), colors=[] if m.vertices_colors is None else nums(m.vertices_colors),
                cw=bool(m.clockwise))


def erec(v, f, kind, uv=(), tex=(), colors=()):
    return dict(v=nums(np.asarray(v)), f=[[dict(v=int(i[0]), t=int(i[1])) if isinstance(i, tuple) else dict(v=int(i), t=int(i)) for i in t] for t in f],
                kind=kind, uv=nums(np.asarray(uv)), tex=ints(tex) if len(tex) else [], colors=ints(colors) if len(colors) else [])


def pil(tex):
    return PIL.Image.fromarray(tex[:, :, 0] if tex.shape[2] == 1 else tex)


def painted():
    """a picture, and the numbers of its pixels: gray levels or colours, maybe with a transparency"""
    kind = RNG.choice(["L", "RGB", "RGBA"] * 2 + ["P", "LA", "1"])
    size = texture(1)
    if kind == "P":
        colors = NPRNG.randint(0, 256, (RNG.choice([2, 7, 256]), 3)).astype(np.uint8)
        k = (size[:, :, 0].astype(int) % len(colors)).astype(np.uint8)
        image = PIL.Image.fromarray(k)
        image.putpalette(colors.flatten().tolist())
        return image, colors[k]
    if kind == "1":
        tex = np.where(size < 128, 0, 255).astype(np.uint8)
        return pil(tex).convert("1", dither=PIL.Image.Dither.NONE), tex
    tex = texture(len(kind))
    return PIL.Image.fromarray(tex) if kind == "LA" else pil(tex), tex


def back(e, call, tol="1/1000000000", kept=lambda: True):
    attempt({"op": "from", "kind": e["kind"]})
    s, r = guard(call)
    return dict(op="from", e=e, status=s, m=mrec(r) if s == "ok" else dict(message=r), tol=tol, kept=kept())


def external(kind):
    f, v = shape()
    g, rows = seams(f, len(v), RNG.choice([1, 2, 3]))
    vv = v[rows]
    if RNG.random() < 0.2:  # an isolated vertex
        vv = np.vstack((vv, [[9.0, 9.0, 9.0]]))
    n = len(vv)
    if kind == "texture":
        image, tex = painted()
        uv = np.round((NPRNG.rand(n, 2) * 1.4 - 0.2) * 128) / 128
        vis = trimesh.visual.texture.TextureVisuals(uv=uv.copy(), material=trimesh.visual.material.SimpleMaterial(image=image))
        t = trimesh.Trimesh(vertices=vv, faces=g, visual=vis, process=False)
        e = erec(vv, g, kind, uv, tex)
    elif kind == "vertex":
        c = NPRNG.randint(0, 256, (n, 4)).astype(np.uint8)
        if RNG.random() < 0.7:  # consistent, but for the transparency
            first = {}
            for i, p in enumerate(vv.tolist()):
                c[i, :3] = c[first.setdefault(tuple(p), i), :3]
            if RNG.random() < 0.3:  # consistent but for one channel of one of them
                i, k = RNG.randrange(n), RNG.randrange(3)
                c[i, k] = (int(c[i, k]) + RNG.choice([1, 255, 128])) % 256
        t = trimesh.Trimesh(vertices=vv, faces=g, vertex_colors=c, process=False)
        e = erec(vv, g, kind, colors=c[:, :3])
    else:
        t = trimesh.Trimesh(vertices=vv, faces=g, face_colors=NPRNG.randint(0, 256, (len(g), 4)).astype(np.uint8), process=False)
        e = erec(vv, g, kind)
    adj = RNG.random() < 0.5
    return back(e, lambda: ColoredTriMesh.from_trimesh(t, compute_adjacencies=adj), kept=lambda: np.array_equal(t.vertices, vv) and np.array_equal(t.faces, g))


def internal():
    """to trimesh, and from there"""
    cw = RNG.random() < 0.5
    f, v = shape(cw)
    fuv, rows = seams(f, len(v), RNG.choice([1, 2, 4]))
    channels = RNG.choice([1, 3])
    tex = texture(channels) / 255.0
    if RNG.random() < 0.4:  # not representable exactly
        tex = NPRNG.rand(*tex.shape) * RNG.choice([1, 1.2]) - RNG.choice([0, 0.05])
    uv = np.round((NPRNG.rand(len(rows), 2) * 1.2 - 0.1) * 16 * np.array(tex.shape[1::-1])) / 16
    colors = NPRNG.rand(len(v), 3) if RNG.random() < 0.15 else None
    made, m = guard(ColoredTriMesh, np.array(f), v.copy(), clockwise=cw, faces_uv=np.array(fuv), uv=uv.copy(), texture=tex.copy(), colors=colors)
    if made != "ok":
        raise SystemExit(f"the mesh was refused: {m}")
    before = mrec(m)
    attempt({"op": "to", "mesh": before})
    s, t = guard(m.to_trimesh)
    out = dict(op="to", m=before, status=s, tol="1/5000", kept=mrec(m) == before)
    if s != "ok":
        return [dict(out, e=dict(message=t))]
    im = np.array(t.visual.material.image)
    im = im[:, :, None] if im.ndim == 2 else im
    e = erec(t.vertices, np.asarray(t.faces).tolist(), "texture", t.visual.uv, im)
    return [dict(out, e=e), back(e, lambda: ColoredTriMesh.from_trimesh(t))]


def textual(folder):
    f, v = shape()
    if RNG.random() < 0.6:
        fuv, rows = seams(f, len(v), RNG.choice([1, 2, 3]))
        uv = np.round(NPRNG.rand(len(rows), 2) * 128) / 128
        image, tex = painted()
        image.save(os.path.join(folder, "t.png"))
        with open(os.path.join(folder, "m.mtl"), "w") as out:
            out.write("newmtl skin\nKd 1 1 1\nmap_Kd t.png\n")
        name = os.path.join(folder, "m.obj")
        with open(name, "w") as out:
            out.write("mtllib m.mtl\nusemtl skin\n")
            out.writelines("v %r %r %r\n" % tuple(p) for p in v.tolist())
            out.writelines("vt %r %r\n" % tuple(p) for p in uv.tolist())
            out.writelines("f " + " ".join(f"{i + 1}/{j + 1}" for i, j in zip(a, b)) + "\n" for a, b in zip(f, fuv))
        e = erec(v, [list(zip(a, b)) for a, b in zip(f, fuv)], "texture", uv, tex)
    else:
        c = NPRNG.randint(0, 256, (len(v), 3))
        name = os.path.join(folder, "m.ply")
        with open(name, "w") as out:
            out.write("ply\nformat ascii 1.0\nelement vertex %d\n" % len(v) + "".join(f"property double {k}\n" for k in "xyz")
                      + "".join(f"property uchar {k}\n" for k in ("red", "green", "blue")) + "element face %d\nproperty list uchar int vertex_indices\nend_header\n" % len(f))
            out.writelines("%r %r %r %d %d %d\n" % (*p, *k) for p, k in zip(v.tolist(), c.tolist()))
            out.writelines("3 %d %d %d\n" % t for t in f)
        e = erec(v, f, "vertex", colors=c)
    return back(e, lambda: ColoredTriMesh.load(name), tol="1/10000")


def files(n):
    folder = tempfile.mkdtemp(prefix="convert")
    try:
        return [textual(folder) for _ in range(n)]
    finally:
        shutil.rmtree(folder)


K = 10 if THOROUGH else 1
FAMILIES = {
    "from": lambda: [external(RNG.choice(["texture"] * 4 + ["vertex"] * 3 + ["face"])) for _ in range(120 * K)],
    "to": lambda: [x for _ in range(80 * K) for x in internal()],
    "load": lambda: files(40 * K),
}
write(FAMILIES[ARGS.family]())
