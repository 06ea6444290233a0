"""Real reading and writing of OBJ files, recorded for TraceObj."""
import os
import shutil
import tempfile

from common import *  # noqa

# pylint: disable=import-self
import importlib

O = importlib.import_module("deodr.obj")
FOLDER = tempfile.mkdtemp(prefix="objfiles")
NAME = os.path.join(FOLDER, "m.obj")
LAYOUT = {"plain": ("", " ", ""), "tabs": ("", "\t", ""), "spaces": ("", "   ", "  "), "indented": ("  ", " ", ""), "crlf": ("", " ", "\r"),
          "comment": ("", " ", " # the end"), "continued": ("", " \\\n", "")}
OTHER = {"#": "# v 1 2 3", "": "", "vt": "vt 0.5 0.25", "vn": "vn 0 0 1", "vp": "vp 0.5", "o": "o f 1 2 3", "g": "g v", "s": "s 1", "usemtl": "usemtl f",
         "mtllib": "mtllib v.mtl"}


def word(a, nv):
    if isinstance(a, str):
        return a
    x = a["v"]
    t, n = [RNG.choice([1, 2, 5, 40, 1000]) * (-1 if x < 0 else 1) for _ in range(2)]  # not read
    return {"v": f"{x}", "v/t": f"{x}/{t}", "v//n": f"{x}//{n}", "v/t/n": f"{x}/{t}/{n}"}[a["form"]]


def text(lines):
    out = []
    for l in lines:
        if l["key"] in OTHER:
            out.append(OTHER[l["key"]] + "\n")
            continue
        start, sep, end = LAYOUT[l["style"]]
        out.append(start + sep.join([l["key"]] + [word(a, 0) for a in l["args"]]) + end + "\n")
    return "".join(out)


def numbers(lines):
    """the numbers that the decimals of the file denote, as doubles"""
    return {a: num(float(a)) for l in lines if l["key"] == "v" for a in l["args"]}


def read(lines):
    body = text(lines)
    if lines and RNG.random() < 0.2:
        body = body.rstrip("\n")  # no end of line at the end of the file
    if "\r" not in body and RNG.random() < 0.1:
        body = body.replace("\n", RNG.choice(["\r\n", "\r"]))
    with open(NAME, "w", newline="") as f:
        f.write(body)
    attempt({"op": "read", "text": body})
    s, r = guard(O.read_obj, NAME)
    return dict(dict(v=nums(r[1]), f=ints(r[0])) if s == "ok" else dict(message=r), op="read", status=s, lines=lines, num=numbers(lines))


def decimal():
    x = RNG.uniform(-1, 1) * 10 ** RNG.randint(-8, 8)
    return RNG.choice([repr, lambda x: "%.3f" % x, lambda x: "%e" % x, lambda x: "%+g" % x, lambda x: "%d" % x])(x)


def long():
    """more lines than are enumerated: many vertices, far and near references"""
    lines, n = [], 0
    total, styles = RNG.choice([12, 40, 130, 300]), list(LAYOUT)
    while n < total or all(l["key"] != "f" for l in lines):
        for _ in range(RNG.choice([1, 3, 20, 100])):
            lines.append(dict(key="v", args=[decimal() for _ in range(RNG.choice([3] * 8 + [4, 6]))], style=RNG.choice(styles)))
            n += 1
        for _ in range(RNG.randint(0, 4)):
            if RNG.random() < 0.15:
                lines.append(dict(key=RNG.choice(list(OTHER)), args=[], style="plain"))
            form, rel = RNG.choice(["v", "v/t", "v//n", "v/t/n"]), RNG.random() < 0.5
            at = [RNG.choice([0, n - 1, RNG.randrange(n), RNG.randrange(n)]) for _ in range(RNG.choice([3, 3, 3, 4, 4, 5, 9]))]
            lines.append(dict(key="f", args=[dict(v=i - n if rel else i + 1, form=form) for i in at], style=RNG.choice(styles)))
    return lines


def save():
    n, m = RNG.choice([RNG.randint(1, 12), RNG.randint(1, 12), 128, 150, 256]), RNG.randint(1, 12)
    v = NPRNG.randn(n, 3) * RNG.choice([1e-4, 1, 30, 1e4])
    f = NPRNG.randint(0, n, (m, 3))
    if RNG.random() < 0.5:
        f[RNG.randrange(m), RNG.randrange(3)] = n - 1
    f = f.astype(RNG.choice([t for t in (np.int32, np.int64, np.uint32, np.uint64, np.uint8, np.int8, np.int16) if n - 1 <= np.iinfo(t).max]))
    v0, f0 = v.copy(), f.copy()
    attempt({"op": "save", "v": v, "f": f})
    if os.path.exists(NAME):
        os.remove(NAME)
    s, _ = guard(O.save_obj, NAME, v, f)
    lines, back = [], ([], [])
    if s == "ok":
        with open(NAME) as fid:
            for l in fid:
                w = l.split()
                if w and w[0] in ("v", "f"):
                    lines.append(dict(key=w[0], args=w[1:4] if w[0] == "v" else [dict(v=int(x.split("/")[0])) for x in w[1:]], style="plain"))
        s, back = guard(O.read_obj, NAME)
    r = dict(bf=ints(back[0]), bv=nums(back[1])) if s == "ok" else dict(message=back)
    return dict(r, op="save", status=s, lines=lines, v=nums(v0), f=ints(f0), num={a: str(Fraction(a)) for l in lines if l["key"] == "v" for a in l["args"]},
                kept=np.array_equal(v, v0) and np.array_equal(f, f0))


try:
    if ARGS.family == "save":
        write([save() for _ in range(1000 if THOROUGH else 100)])
    elif ARGS.family == "long":
        write([read(long()) for _ in range(300 if THOROUGH else 40)])
    else:
        with open(ARGS.input) as fid:
            write([read(x) for x in json.load(fid)])
finally:
    shutil.rmtree(FOLDER)
