"""What decides each property."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import main  # noqa: E402

TR = "INIT Init\nNEXT Next\nINVARIANT DesignInv\nPROPERTY DesignStep\nCHECK_DEADLOCK FALSE\n"
EXACT = ["the inputs are finite doubles; comparisons closer than 1e-9 (generic inputs) are left to the implementation",
         "java/RatOverrides.java evaluates spec/Rat.tla (exact rationals)"]


def raster(c, family, need=None, **kw):
    c.validate("TraceRaster", c.driver("raster", family), family, cfg=TR, need=dict(px=100, **(need or {})), **kw)
    return EXACT


def R01(c):
    def tiles(w, h, den, name, limit):
        f = c.cases("Tiling", f"CONSTANTS W = {w} H = {h} Den = {den}\nSPECIFICATION Spec\nINVARIANTS Inner Oriented NoOverlap NoGap SharedSide Emit\nCHECK_DEADLOCK FALSE\n",
                    name, limit=limit, expect_states=1000)
        c.validate("TraceRaster", c.driver("raster", "tiling", inp=f), name, cfg=TR, need=dict(drawn=100))

    tiles(3, 2, 1, "tiles", 20000 if c.thorough else 400)
    if c.thorough:
        tiles(2, 2, 2, "fine", 20000)
        tiles(2, 1, 3, "finer", 20000)
    return raster(c, "coverage", dict(drawn=300))


def R02(c):
    return raster(c, "visibility", dict(drawn=300))


def R03(c):
    return raster(c, "interpolation", dict(drawn=300))


def R04(c):
    return raster(c, "texture", dict(drawn=300))


def R05(c):
    return raster(c, "culling", dict(drawn=200))


def R06(c):
    return raster(c, "background", dict(drawn=100))


def R07(c):
    return raster(c, "antialias", dict(drawn=300, edges=100))


def R08(c):
    return raster(c, "errormode", dict(drawn=300, edges=100))


def G01(c):
    return raster(c, "grad_tri", dict(drawn=300, grad=40))


def G02(c):
    return raster(c, "grad_edge", dict(drawn=300, edges=100, grad=40))


def G03(c):
    return raster(c, "grad_error", dict(drawn=300, edges=100, grad=40))


TT = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n"


def life2d(c, consts, name, args=(), limit=None):
    k = dict(Depth=3, Sigmas="{1, 2}", Adjs="{1}", AllCompares="FALSE", Looks="{1}")
    k.update(consts)
    cs = "CONSTANTS\n" + "".join(f"  {a} = {b}\n" for a, b in k.items())
    f = c.cases("Life2D", cs + "SPECIFICATION Spec\nINVARIANTS TypeOK Emit\nPROPERTIES Additive RenderingsLeaveGradients\nCHECK_DEADLOCK FALSE\n",
                name, args=args, limit=limit)
    c.validate("TraceLife2D", c.driver("life2d", name, inp=f), name, cfg=cs + TT, need=dict(steps=100, contributions=100))


def G04(c):
    life2d(c, {}, "histories")
    life2d(c, dict(Sigmas="{2}", Looks="{1, 2}"), "changes", limit=None if c.thorough else 1000)
    life2d(c, dict(Depth=10, Adjs="{1, 2}", AllCompares="TRUE", Looks="{1, 2}"), "random", ("-simulate", f"num={500 if c.thorough else 50}", "-depth", "11", "-seed", str(c.seed)))
    if c.thorough:
        life2d(c, dict(Depth=4, Looks="{1, 2}"), "deep", limit=40000)
    return ["the contribution of one backward pass to a fresh scene is right (G01, G02, G03)"]


def V01(c):
    def cfg(changes, bases):
        return ("CONSTANTS\n  MaxChanges = %d\n  Bases <- %s\n  Calls = {\"render\", \"error\", \"backward\", \"errorbackward\"}\n" % (changes, bases))

    for name, ch, lim in (("single", 1, None), ("pairs", 2, 60000 if c.thorough else 8000)):
        k = cfg(ch, "AllBases" if ch == 1 or c.thorough else "SomeBases")
        f = c.cases("Validity", k + "SPECIFICATION Spec\nINVARIANTS BasesAreValid OneChange Emit\nCHECK_DEADLOCK FALSE\n", name, limit=lim, expect_states=1000)
        c.validate("TraceValidity", c.driver("validity", name, inp=f), name, cfg=k + TT, need=dict(valid=20))
    return ["a call that reads or writes out of bounds is one that accepts an inconsistent scene"]


def camera(c, family):
    c.validate("TraceCamera", c.driver("camera", family), family, cfg=TR, need=dict(points=200))
    return ["java/RatOverrides.java evaluates spec/Rat.tla (exact rationals)"]


def C01(c):
    return camera(c, "project")


def C02(c):
    return camera(c, "gradient")


def C03(c):
    return camera(c, "geometry") + ["tangents of the angles are those of the C library"]


MESHES = "CONSTANTS NV = %d MaxFaces = %d Repeat = %s SubMax = %d\nSPECIFICATION Spec\nINVARIANTS Bookkeeping SubdivisionPreserves Emit\nPROPERTY ManifoldIsMonotone\nCHECK_DEADLOCK FALSE\n"
RAT = ["java/RatOverrides.java evaluates spec/Rat.tla (exact rationals)"]


def mesh(c, family, **kw):
    c.validate("TraceMesh", c.driver("mesh", family, inp=kw.pop("inp", None)), family, need=dict(faces=200), **kw)
    return RAT


def M01(c):
    for name, nv, mf, rep, sub in [("small", 4, 4, "TRUE", 0), ("wide", 5, 4, "FALSE", 0)] + ([("deep", 5, 5, "FALSE", 0), ("full", 4, 8, "FALSE", 0)] if c.thorough else []):
        f = c.cases("MeshEnum", MESHES % (nv, mf, rep, sub), name, limit=None if c.thorough else 2500, expect_states=300)
        c.validate("TraceMesh", c.driver("mesh", "enumerated", inp=f), name, need=dict(faces=500))
    return mesh(c, "topology")


def M02(c):
    return mesh(c, "normals")


def M03(c):
    return mesh(c, "silhouette")


def M04(c):
    return mesh(c, "rigid")


def M05(c):
    f = c.cases("MeshEnum", MESHES % (5, 4, "FALSE", 4), "small", limit=None if c.thorough else 2000, expect_states=1000)
    mesh(c, "refined", inp=f)
    return mesh(c, "subdivide")


def meshlife(c, depth, name, args=(), limit=None):
    k = f"CONSTANTS\n  Depth = {depth}\n  Poses = {{1, 2, 3}}\n  Colors = {{1, 2}}\n  Adjs = {{1, 2}}\n  Views = {{1, 2}}\n"
    f = c.cases("MeshLife", k + "SPECIFICATION Spec\nINVARIANTS CacheIsCurrent GradientsAreCurrent ReadyMeansComputed Emit\nPROPERTY RequestsChangeNothing\nCHECK_DEADLOCK FALSE\n",
                name, args=args, limit=limit, expect_states=1000)
    c.validate("TraceMeshLife", c.driver("meshlife", name, inp=f), name, cfg=k + TT, need=dict(steps=1000, contributions=10))


def M06(c):
    meshlife(c, 4, "histories", limit=None if c.thorough else 3000)
    meshlife(c, 12, "random", ("-simulate", f"num={4000 if c.thorough else 40}", "-depth", "13", "-seed", str(c.seed)))
    if c.thorough:
        meshlife(c, 5, "deep", limit=60000)
    return ["a request to a fresh mesh is right (M01, M02, M03, M05, M08)"]


def M07(c):
    for f in ("from", "to", "load"):
        c.validate("TraceConvert", c.driver("convert", f), f, need=dict(faces=200))
    return RAT


def M08(c):
    return mesh(c, "volume")


def scene(c, family, **need):
    c.validate("TraceScene3D", c.driver("scene3d", family), family, cfg=TR, need=dict(drawn=300, **need))
    return EXACT


def S01(c):
    return scene(c, "image", edges=100)


def S02(c):
    return scene(c, "gradient", grad=30, edges=50)


def S03(c):
    return scene(c, "depth", grad=20, edges=50)


def S04(c):
    return scene(c, "deferred")


def scenelife(c, depth, name, args=(), limit=None, changes=("pose", "light"), expect=1000):
    k = f"CONSTANTS\n  Depth = {depth}\n  Two = {{1, 2}}\n  Views = {{1, 2}}\n  Adjs = {{1, 2}}\n  Changes = {{{', '.join(chr(34) + x + chr(34) for x in changes)}}}\n"
    f = c.cases("SceneLife", k + "SPECIFICATION Spec\nINVARIANTS TypeOK Emit\nPROPERTIES RenderingsStartAnew OnlyMatchingPassesCount ChangesAreNotRenderings MeshesAreApart\nCHECK_DEADLOCK FALSE\n",
                name, args=args, limit=limit, expect_states=expect)
    c.validate("TraceSceneLife", c.driver("scenelife", name, inp=f), name, cfg=k + TT, need=dict(steps=1000, contributions=20))


def S05(c):
    every = ("pose", "color", "mesh", "light", "back", "width")
    scenelife(c, 4, "histories", limit=None if c.thorough else 1500)
    scenelife(c, 3, "changes", limit=None if c.thorough else 1500, changes=every)
    scenelife(c, 12, "random", ("-simulate", f"num={4000 if c.thorough else 50}", "-depth", "13", "-seed", str(c.seed)), changes=every, limit=None if c.thorough else 700)
    if c.thorough:
        scenelife(c, 5, "deep", limit=40000)
        scenelife(c, 4, "deeper", limit=40000, changes=every)
    return ["one rendering and one backward pass of a fresh scene are right (S01, S02, S03, S04)"]


def fitter(c, family, steps=20, driver="fitter"):
    c.validate("TraceFit", c.driver(driver, family), family, cfg="INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", need=dict(steps=steps))


def F01(c):
    fitter(c, "depth")
    fitter(c, "rgb")
    return EXACT


def fitlife(c, depth, name, long="FALSE", args=(), limit=None, options="1, 2", kinds="1, 2", keep=None):
    k = f"CONSTANTS\n  Depth = {depth}\n  Images = {{{kinds}}}\n  Backs = {{{kinds}}}\n  Poses = {{{kinds}}}\n  Options = {{{options}}}\n  Long = {long}\n"
    f = c.cases("FitLife", k + "SPECIFICATION Spec\nINVARIANTS Current Emit\nPROPERTIES ResetForgets PosesWait OnlyResetsShorten\nCHECK_DEADLOCK FALSE\n",
                name, args=args, limit=limit, expect_states=300, keep=keep)
    c.validate("TraceFitLife", c.driver("fitlife", name, inp=f), name, cfg=k + TT, need=dict(steps=15))


def F02(c):
    fitlife(c, 4, "histories", options="")
    fitlife(c, 6 if c.thorough else 5, "options", kinds="", keep=lambda h: {"reset", "options"} <= {o["op"] for o in h})
    fitlife(c, 4, "long", long="TRUE", limit=None if c.thorough else 6)
    fitlife(c, 10, "random", args=("-simulate", f"num={20000 if c.thorough else 2000}", "-depth", "11", "-seed", str(c.seed)), limit=None if c.thorough else 300)
    if c.thorough:
        fitlife(c, 5, "deep")
    return ["one step of a new fitter is right (F01, F04)"]


def F03(c):
    for f in ("rotations", "products"):
        c.validate("TraceTools", c.driver("tools", f), f, need=dict(judged=100))
    return RAT


def F05(c):
    c.validate("TraceTools", c.driver("tools", "differences"), "differences", need=dict(judged=50))
    return RAT


def F04(c):
    fitter(c, "multi")
    return EXACT


def I02(c):
    c.model("MeshLabDesign", "SPECIFICATION Spec\nINVARIANTS SamePixel SameSide DistancesKept\nCHECK_DEADLOCK FALSE\n", expect_states=3000)
    c.validate("TraceMeshLab", c.driver("meshlab", "projects"), "projects", need=dict(cameras=100))
    return RAT


def I03(c):
    c.model("GLDesign", "SPECIFICATION Spec\nINVARIANTS WindowIsPixel DeviceIsWhereItShouldBe DrawnIffSeen DepthsGrow\nCHECK_DEADLOCK FALSE\n", expect_states=10000)
    for f in ("matrix", "pyrender"):
        c.validate("TraceGL", c.driver("opengl", f), f, need=dict(judged=100))

    def renderers(depth, name, args=(), limit=None, expect=100, many="1"):
        k = f"CONSTANTS\n  Depth = {depth}\n  Scenes = {{1, 2}}\n  Cameras = {{1, 2}}\n  Renderers = {{{many}}}\n"
        f = c.cases("GLLife", k + "SPECIFICATION Spec\nINVARIANTS LastWins Emit\nPROPERTIES RenderingChangesNothing\nCHECK_DEADLOCK FALSE\n", name, args=args, limit=limit, expect_states=expect)
        c.validate("TraceGLLife", c.driver("opengl", "renderers", inp=f), name, cfg=TT, need=dict(drawn=150))

    renderers(4, "histories", limit=None if c.thorough else 60)
    renderers(8, "random", ("-simulate", f"num={800 if c.thorough else 100}", "-depth", "9", "-seed", str(c.seed)), limit=None if c.thorough else 20)
    renderers(8, "several", ("-simulate", f"num={800 if c.thorough else 100}", "-depth", "9", "-seed", str(c.seed)), limit=None if c.thorough else 30, many="1, 2")
    return ["pyrender's own rendering is not run: PyOpenGL does not work with this Python", "OpenGL images: pixels further than a quarter of a pixel from the sides of faces"]


def I04(c):
    for f in ("image", "gradient", "depth"):
        c.validate("TraceScene3D", c.driver("front", f), "torch " + f, cfg=TR, need=dict(drawn=100, **({} if f == "image" else dict(grad=10))))
    c.validate("TraceCamera", c.driver("front", "project"), "torch project")
    c.validate("TraceMesh", c.driver("front", "mesh"), "torch mesh")
    c.validate("TraceTools", c.driver("front", "rotations"), "torch rotations", need=dict(judged=30))

    def tapes(depth, name, args=(), limit=None):
        k = f"CONSTANTS\n  Depth = {depth}\n  Poses = {{1, 2}}\n  Lights = {{1, 2}}\n  Views = {{1, 2}}\n  Adjs = {{1, 2}}\n  Tapes = 3\n"
        f = c.cases("TapeLife", k + "SPECIFICATION Spec\nINVARIANTS Commute Together Emit\nPROPERTIES TapesAreFixed OnlyBackwardCounts\nCHECK_DEADLOCK FALSE\n",
                    name, args=args, limit=limit, expect_states=1000)
        c.validate("TraceTapeLife", c.driver("front", name, inp=f), name, cfg=k + TT, need=dict(steps=100))

    tapes(5 if c.thorough else 4, "tapes", limit=None if c.thorough else 600)
    tapes(10, "walks", ("-simulate", f"num={400 if c.thorough else 60}", "-depth", "11", "-seed", str(c.seed)), limit=None if c.thorough else 200)
    return EXACT


def I01(c):
    def files(depth, styles, name, args=(), limit=None, expect=1000):
        # (only the first numbers of each kind matter to the reader, the others are what floats are written like)
        k = ("CONSTANTS\n  Depth = %d\n  Styles = {%s}\n  Forms = {\"v\", \"v/t\", \"v//n\", \"v/t/n\"}\n  Numbers <- SomeNumbers\n"
             % (depth, ", ".join(f'"{s}"' for s in styles)))
        f = c.cases("ObjFiles", k + "SPECIFICATION Spec\nINVARIANTS MachineIsRead FacesExist Emit\nPROPERTIES OthersAreSkipped ReadingIsMonotone\nCHECK_DEADLOCK FALSE\n",
                    name, args=args, limit=limit, expect_states=expect)
        c.validate("TraceObj", c.driver("obj", name, inp=f), name, need=dict(lines=500))

    styles = ["plain", "tabs", "spaces", "indented", "crlf", "comment", "continued"]
    files(1, styles, "single")
    files(2, styles, "pairs", limit=None if c.thorough else 3000)
    files(10, styles, "random", ("-simulate", f"num={150 if c.thorough else 8}", "-depth", "11", "-seed", str(c.seed)), limit=None if c.thorough else 1500)
    for f in ("long", "save"):
        c.validate("TraceObj", c.driver("obj", f), f, need=dict(lines=300))
    return ["texture and normal numbers, and what follows other keywords, are not read"]


def F06(c):
    for f in ("depth", "rgb"):
        fitter(c, f, driver="torchfit")
    c.validate("TraceLBFGS", c.driver("torchfit", "lbfgs"), "lbfgs", cfg="INIT LInit\nNEXT LNext\nINVARIANT LInv\nCHECK_DEADLOCK FALSE\n", need=dict(steps=12))
    fitlife(c, 5 if c.thorough else 4, "torch", limit=None if c.thorough else 100)
    return EXACT


def I05(c):
    def sessions(depth, starts, name, args=(), limit=None, moves="1, 2, 3, 4, 5, 6, 7", keys="hrpladstcx", keep=None):
        k = (f"CONSTANTS\n  Depth = {depth}\n  Moves = {{{moves}}}\n  Sizes = {{1, 2}}\n  Lights = {{1, 2}}\n  KeysUsed = {{{', '.join(json.dumps(x) for x in keys)}}}\n"
             f"  Starts <- {starts}\n")
        f = c.cases("ViewerLife", k + "SPECIFICATION Spec\nINVARIANTS OnlyDragsMove OneOption Undone OneMode Emit\nPROPERTIES MouseKeepsOptions\nCHECK_DEADLOCK FALSE\n",
                    name, args=args, limit=limit, expect_states=100, keep=keep)
        c.validate("TraceViewer", c.driver("viewer", name, inp=f), name, need=dict(steps=40))

    pans = lambda ops: ops[0]["k"] == "middle" or any(x["op"] == "move" and x["m"] == "ctrl" for x in ops)
    sessions(4, "OneStart", "back", moves="4", keys="c", limit=3000 if c.thorough else 40, keep=lambda x: x["ops"][-1]["k"] == "c" and pans(x["ops"]))
    sessions(3, "AllStarts", "histories", limit=3000 if c.thorough else 100)
    sessions(14, "AllStarts", "random", ("-simulate", f"num={300 if c.thorough else 30}", "-depth", "15", "-seed", str(c.seed)), limit=1500 if c.thorough else 60)
    return ["OpenCV's window is replaced by one that calls the viewer back, and records what it is shown", "one button at a time, no resizing while a film is recorded"]


CHECKS = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0].isupper() and k[1:].isdigit()}

if __name__ == "__main__":
    sys.exit(main(CHECKS))
