"""What real cameras compute, recorded for TraceCamera."""
import math

from common import *  # noqa

from deodr.differentiable_renderer import Camera, PerspectiveCamera, default_camera


def rotation():
    k = RNG.randrange(4)
    if k == 0:  # exact rotations
        p = np.eye(3)[RNG.sample(range(3), 3)] * np.array([[RNG.choice([-1, 1])] for _ in range(3)])
        return p if np.linalg.det(p) > 0 else -p
    q = np.array([RNG.gauss(0, 1) for _ in range(4)])
    if k == 1:
        q = np.array([1, 0.1, 0.1, 0.1]) * q
    x, y, z, w = q / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def distortion():
    d, weak = coefficients(), RNG.choice([1, 1, 1, 2.0**-10, 2.0**-14])
    return d if d is None else type(d)([x * weak for x in d]) if isinstance(d, list) else d * weak


def coefficients():
    k = RNG.randrange(5)
    if k < 2:
        return None
    if k == 2:  # a single coefficient
        d = [0.0] * 5
        d[RNG.randrange(5)] = RNG.uniform(-0.3, 0.3)
        return np.array(d)
    if k == 3:
        return [RNG.uniform(-0.3, 0.3) for _ in range(5)]
    return np.array([RNG.uniform(-0.3, 0.3) for _ in range(5)])


def camera(center=False, u=1.0):
    W, H = RNG.choice([1, 7, 64, 333, 640]), RNG.choice([1, 8, 48, 200, 480])
    f = RNG.uniform(0.3, 3) * W
    fy = f * RNG.choice([1, 1, RNG.uniform(0.5, 2)])
    skew = 0 if center else RNG.choice([0, 0, RNG.uniform(-0.3, 0.3) * f])
    c = (W / 2, H / 2) if center else (RNG.uniform(0, W), RNG.uniform(0, H))
    ext = np.column_stack((rotation(), [RNG.uniform(-2, 2) * u for _ in range(3)]))
    return Camera(extrinsic=ext, intrinsic=np.array([[f, skew, c[0]], [0, fy, c[1]], [0, 0, 1]]), height=H, width=W,
                  distortion=distortion())


def points(cam, n, u=1.0):
    z = np.array([u * RNG.uniform(0.5, 5) * RNG.choice([1, 1, 1, -1]) for _ in range(n)])
    p = np.column_stack(([RNG.uniform(-1.5, 1.5) for _ in range(n)] * np.abs(z), [RNG.uniform(-1.5, 1.5) for _ in range(n)] * np.abs(z), z))
    return (p - cam.extrinsic[:, 3]).dot(cam.extrinsic[:, :3])


def desc(cam, u=1.0):
    return dict(ext=nums(np.asarray(cam.extrinsic) / [1, 1, 1, u]), int=nums(cam.intrinsic), W=num(cam.width), H=num(cam.height),
                dist=[] if cam.distortion is None else nums(np.array(cam.distortion)))


def project():
    u = unit()
    cam = camera(u=u)
    before = desc(cam, u)
    x = points(cam, RNG.randint(1, 6), u)
    x0 = x.copy()
    attempt(dict(op="project", cam=before, x=x))

    def go():
        if RNG.random() < 0.5:
            img, depth = cam.project_points(x)
        else:
            img, depth = cam.project_points(x, store_backward={})
        one = [cam.project_points(x[i : i + 1]) for i in range(len(x))]
        nod = cam.project_points(x, return_depths=False)
        return dict(img=nums(img), depth=nums(depth / u), one=[nums(o[0][0]) for o in one], onedepth=[num(o[1][0] / u) for o in one],
                    nodepth=nums(nod), cam3=nums(cam.world_to_camera(x) / u))

    status, r = guard(go)
    return dict(r if status == "ok" else {}, op="project", status=status, cam=before, x=nums(x0 / u),
                kept=bool(np.array_equal(x, x0) and desc(cam, u) == before))


def gradient():
    u = unit()
    cam = camera(u=u)
    before = desc(cam, u)
    n = RNG.randint(1, 5)
    x = points(cam, n, u)
    imgb = np.array([[RNG.randint(-8, 8) / 4 for _ in range(2)] for _ in range(n)])
    depthb = np.array([RNG.randint(-8, 8) / 4 / u for _ in range(n)]) if RNG.random() < 0.6 else None
    loud = loudness()
    imgb, depthb = imgb * loud, None if depthb is None else depthb * loud
    a0 = imgb.copy(), None if depthb is None else depthb.copy()
    attempt(dict(op="gradient", cam=before, x=x))

    def go():
        store = {}
        cam.project_points(x, store_backward=store)
        if RNG.random() < 0.5:  # another projection in between, with its own store
            cam.project_points(x[::-1] * 1.25, store_backward={})
        return cam.project_points_backward(imgb, store_backward=store, depths_b=depthb)

    status, r = guard(go)
    return dict(op="gradient", status=status, cam=before, x=nums(x / u), xb=nums(r * u / loud) if status == "ok" else [], imgb=nums(a0[0] / loud),
                depthb=[] if depthb is None else nums(a0[1] * u / loud),
                kept=bool(np.array_equal(imgb, a0[0]) and (depthb is None or np.array_equal(depthb, a0[1])) and desc(cam, u) == before))


def geometry():
    u = unit()
    cam = camera(center=True, u=u)
    x = points(cam, 3, u)
    before = desc(cam, u)
    attempt(dict(op="geometry", cam=before))
    status, r = guard(lambda: (cam.get_center(), cam.camera_to_world_mtx_4x4(), cam.xfov, cam.yfov))
    tr = dict(op="geometry", status=status, cam=before, x=nums(x / u))
    if status == "ok":
        tr.update(center=nums(r[0] / u), c2w=nums(r[1] / np.array([[1, 1, 1, u]] * 3 + [[1, 1, 1, 1]])), tanx=num(math.tan(math.radians(r[2]) / 2)), tany=num(math.tan(math.radians(r[3]) / 2)))
    return tr


def perspective():
    W, H = RNG.choice([64, 333, 640, 17]), RNG.choice([48, 200, 480, 31])
    fov = RNG.uniform(5, 150)
    u = unit()
    center = np.array([RNG.uniform(-3, 3) * u for _ in range(3)])
    rot = rotation() if RNG.random() < 0.8 else None
    d = distortion()
    attempt(dict(op="perspective", W=W, H=H, fov=fov, center=center, rot=rot))
    status, cam = guard(lambda: PerspectiveCamera(width=W, height=H, fov=fov, camera_center=center.copy(), rot=None if rot is None else rot.copy(), distortion=d))
    return dict(op="perspective", status=status, x=[], cam=desc(cam, u) if status == "ok" else {},
                req=dict(W=num(W), H=num(H), tanx=num(math.tan(math.radians(fov) / 2)), center=nums(center / u),
                         rot=nums(np.eye(3) if rot is None else rot), dist=[] if d is None else nums(np.array(d))))


def default():
    W, H = RNG.choice([64, 333, 640, 17]), RNG.choice([48, 200, 480, 31])
    fov = RNG.uniform(5, 120)
    u = unit()
    s = np.array([10 ** RNG.uniform(-1.5, 1.5) for _ in range(3)])
    v = np.array([[RNG.uniform(-1, 1) for _ in range(3)] for _ in range(RNG.randint(4, 9))]) * s + np.array([RNG.uniform(-5, 5) for _ in range(3)])
    v = v * u
    rot = rotation()
    d = distortion() if RNG.random() < 0.3 else None
    attempt(dict(op="default", W=W, H=H, fov=fov, v=v, rot=rot))
    status, cam = guard(lambda: default_camera(W, H, fov, v.copy(), rot.copy(), distortion=d))
    return dict(op="default", status=status, x=nums(v / u), cam=desc(cam, u) if status == "ok" else {},
                req=dict(W=num(W), H=num(H), tanx=num(math.tan(math.radians(fov) / 2)), rot=nums(rot), dist=[] if d is None else nums(np.array(d))))


K = 20 if THOROUGH else 1
FAMILIES = {
    "project": lambda: [project() for _ in range(300 * K)],
    "gradient": lambda: [gradient() for _ in range(300 * K)],
    "geometry": lambda: [geometry() for _ in range(150 * K)] + [perspective() for _ in range(150 * K)] + [default() for _ in range(150 * K)],
}
if __name__ == "__main__":
    write(FAMILIES[ARGS.family]())
