"""Builds the scenes of Validity and hands them to the real code."""
from common import *  # noqa

from deodr.differentiable_renderer import Scene2D


def filled(shape, hi=2.0):
    return NPRNG.randint(0, int(hi * 4) + 1, shape).astype(float) / 4


def build(x, before):
    def faces(shape, hi, dtype):
        n = 1
        for v in shape:
            n *= v
        f = np.zeros(shape, dtype=np.int64)
        if n >= 3:
            f.ravel()[:3] = [0, 1, 2]
        if n:
            f.ravel()[-1] = hi
        return f.astype(dtype)

    ft = np.uint32 if x["facetype"][0] == 32 else np.int64
    nv = x["ij"]
    ij = np.resize(np.array([0.3, 0.2, 3.7, 0.4, 0.6, 3.1, 3.9, 2.9, 1.1, 1.2]), tuple(nv))
    sc = Scene2D(
        faces=faces(x["faces"], x["maxface"][0], ft), faces_uv=faces(x["facesuv"], x["maxfaceuv"][0], np.int64 if x["maxfaceuv"][0] < 0 else np.uint32),
        ij=ij, depths=filled(x["depths"]) + 1, textured=np.full(x["textured"], x["usetexture"][0] == 1), uv=filled(x["uv"]),
        shade=filled(x["shade"]), colors=filled(x["colors"]), shaded=np.full(x["shaded"], x["usetexture"][0] == 1),
        edgeflags=np.ones(x["edgeflags"], dtype=bool), height=x["size"][0], width=x["size"][1], nb_colors=x["channels"][0],
        texture=filled(x["texture"]), background_image=filled(x["bgimage"]) if x["bgimage"] else None,
        background_color=filled(x["bgcolor"]) if x["bgcolor"] else None,
        clockwise=True, backface_culling=x["culling"][0] == 1, perspective_correct=x["persp"][0] == 1)
    for k, f in dict(ij_b="ijb", uv_b="uvb", shade_b="shadeb", colors_b="colorsb", texture_b="textureb").items():
        if x[f] != list(getattr(sc, k).shape):
            setattr(sc, k, np.zeros(x[f]))
    return sc


def alter(old, new):
    """old becomes new, where it can in its own arrays"""
    for k, v in vars(new).items():
        o = getattr(old, k, None)
        if isinstance(v, np.ndarray) and isinstance(o, np.ndarray) and v.shape == o.shape and v.dtype == o.dtype and RNG.random() < 0.7:
            o[...] = v
        else:
            setattr(old, k, v)
    return old


def used(x):
    """a scene that was rendered and differentiated"""
    sc = build(x, None)
    H, W, C = x["size"][0], x["size"][1], x["channels"][0]
    for call, args in RNG.sample([(sc.render, (1.0,)), (sc.render_error, (filled((H, W, C)), 1.0))], 2):
        call(*args)
        if call == sc.render:
            sc.render_backward(filled((H, W, C)))
        else:
            sc.render_error_backward(filled((H, W)))
    return sc


def run(case):
    x, call = case["s"], case["call"]
    attempt(case)
    sc = build(x, None)
    if RNG.random() < 0.5:
        sc = alter(used(case["before"]), sc)
    sigma = 1.0
    H, W, C = x["size"][0], x["size"][1], x["channels"][0]
    grads = ["ij_b", "uv_b", "shade_b", "colors_b", "texture_b"]
    obs = filled(x["obs"])
    if call == "render":
        status, _ = guard(sc.render, sigma)
        held = []
    elif call == "error":
        keep = obs.copy()
        status, _ = guard(sc.render_error, obs, sigma)
        held = [(obs, keep)]
    else:
        # the rendering that came before, as a consistent one would have left it
        image, z, err = filled((H, W, C)), filled((H, W)), filled((H, W))
        before = [(getattr(sc, g), getattr(sc, g).copy()) for g in grads]
        if call == "backward":
            sc.store_backward = (sigma, image, z)
            adj = filled(x["adj"])
            held = before + [(v, v.copy()) for v in (image, z, adj)]
            status, _ = guard(sc.render_backward, adj)
        else:
            sc.store_backward = (sigma, obs, image, z, err)
            adj = filled(x["adjerr"])
            held = before + [(v, v.copy()) for v in (image, z, err, obs, adj)]
            status, _ = guard(sc.render_error_backward, adj)
    return dict(case=case, status=status, intact=all(np.array_equal(a, b) for a, b in held))


with open(ARGS.input) as f:
    CASES = json.load(f)
write([run(c) for c in CASES])
