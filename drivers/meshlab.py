"""MeshLab projects written by the real code, recorded for TraceMeshLab."""
import os
import shutil
import tempfile
import xml.etree.ElementTree as ET

import imageio.v3 as iio
import mesh as M
from camera import rotation
from common import *  # noqa
from mesh import farray
from scene3d import camdesc, small

from deodr.differentiable_renderer import Camera
from deodr.meshlab_io import export_meshlab


def floats(s):
    return [float(v) for v in s.split()]


def camera():
    W, H = RNG.randint(2, 40), RNG.randint(2, 40)
    r = rotation()
    if RNG.random() < 0.3:
        p = RNG.sample(range(3), 3)
        r = np.eye(3)[p] * np.array([RNG.choice([-1, 1]) for _ in range(3)])
        r[2] *= np.linalg.det(r)
    f = small(RNG.uniform(0.5, 3) * W)
    K = np.array([[f, 0, small(RNG.uniform(0, W))], [0, small(f * RNG.choice([1, RNG.uniform(0.5, 2)])), small(RNG.uniform(0, H))], [0, 0, 1]])
    d = None if RNG.random() < 0.8 else small([RNG.uniform(-0.2, 0.2) for _ in range(5)])
    return Camera(extrinsic=np.column_stack((r, small(10 ** RNG.uniform(-2, 2) * NPRNG.randn(3)))), intrinsic=K, width=W, height=H, distortion=d)


def image(cam):
    bytes_ = RNG.random() < 0.5
    a = NPRNG.rand(cam.height, cam.width, RNG.choice([3, 3, 3, 4, 1, 2]))
    if RNG.random() < 0.1:
        a = a[:, :, 0]
    return (a * 256).astype(np.uint8) if bytes_ else small(a)


def described(path, keep):
    root = ET.parse(path).getroot()
    d = os.path.dirname(path)
    shots = []
    for r in root.iter("MLRaster"):
        c, p = r.find("VCGCamera").attrib, r.find("Plane").attrib
        rot = np.array(floats(c["RotationMatrix"])).reshape(4, 4)
        t = floats(c["TranslationVector"])
        img = iio.imread(os.path.join(d, p["fileName"]))
        shots.append(dict(label=r.attrib["label"], file=p["fileName"], rest=bool(t[3] == 1 and (rot[3] == [0, 0, 0, 1]).all() and (rot[:, 3] == [0, 0, 0, 1]).all()),
                          shot=dict(trans=nums(t[:3]), rot=nums(rot[:3, :3]), focal=num(float(c["FocalMm"])), pixel=nums(floats(c["PixelSizeMm"])),
                                    center=nums(floats(c["CenterPx"])), view=nums(floats(c["ViewportPx"]))),
                          image=dict(shape=list(img.shape), data=nums(img.reshape(-1)[keep % img.size]))))
    ml = list(root.iter("MLMesh"))
    assert len(ml) == 1
    x, f = [], []
    with open(os.path.join(d, ml[0].attrib["filename"])) as file:
        for line in file:
            w = line.split()
            if w[:1] == ["v"]:
                x.append([float(v) for v in w[1:4]])
            elif w[:1] == ["f"]:
                f.append([int(v.split("/")[0]) - 1 for v in w[1:4]])
    return shots, dict(matrix=nums(floats(next(root.iter("MLMatrix")).text)), x=nums(np.array(x)), faces=f)


def project():
    n = RNG.choice([0, 1, 1, 2, 3, 5, 12])
    cams = [camera() for _ in range(n)]
    images = [image(c) for c in cams]
    f, v, cw = M.mesh(damage=0.3, isolated=0.1, several=0.2, pinch=0.1)
    v = small(v)
    status, m = guard(lambda: M.ColoredTriMesh(farray(f), v.copy(), clockwise=cw, colors=np.zeros((len(v), 3))))
    if status != "ok":
        return project()
    keep = NPRNG.randint(0, 10**6, 25)
    before = [a.copy() for c, i in zip(cams, images) for a in (c.extrinsic, c.intrinsic, i)]
    d = tempfile.mkdtemp()
    attempt(dict(cams=[camdesc(c) for c in cams]))
    try:
        # (a folder whose name has no space, and names that are not the default ones)
        path = os.path.join(d, RNG.choice(["project.mlp", "a.b.mlp"]))
        args = (path, m, cams, images) + (("other.obj",) if RNG.random() < 0.5 else ())

        def go():
            export_meshlab(*args)
            return described(path, keep)

        status, r = guard(go)
    finally:
        shutil.rmtree(d)
    kept = all(np.array_equal(a, b) for a, b in zip(before, [a for c, i in zip(cams, images) for a in (c.extrinsic, c.intrinsic, i)]))
    shots, mesh = r if status == "ok" else ([], dict(message=r))
    return dict(status=status, cams=[camdesc(c) for c in cams], shots=shots, mesh=mesh, x=nums(v), faces=ints(f), cw=bool(cw), kept=kept,
                images=[dict(w=num(i.shape[1]), h=num(i.shape[0]), shape=list(i.shape), bytes=bool(i.dtype == np.uint8), data=nums(i.reshape(-1)[keep % i.size])) for i in images],
                points=nums(small(5 * NPRNG.randn(8, 3))))


if __name__ == "__main__":
    write([project() for _ in range(1000 if THOROUGH else 100)])
