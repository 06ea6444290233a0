"""Shared by the drivers (run with /opt/venv python on a snapshot of /repo's package)."""
import argparse
import json
import os
import random
import signal
import traceback
from fractions import Fraction

import numpy as np

ap = argparse.ArgumentParser()
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--tier", default="quick")
ap.add_argument("--out", required=True)
ap.add_argument("--family", default="")
ap.add_argument("--input", default="")
ap.add_argument("--only", default="")
ARGS = ap.parse_args()
RNG = random.Random(f"{ARGS.seed}/{ARGS.family}")
NPRNG = np.random.RandomState(ARGS.seed % (2**31))
THOROUGH = ARGS.tier == "thorough"


def loudness():
    """what the gradients coming in are multiplied by: small ones are worth as much as others"""
    return 2.0 ** RNG.choice([-50, -34, -27, -20, 20, 40]) if RNG.random() < 0.3 else 1.0


def beside(a):
    """nearly the same numbers, each of them another one"""
    a = np.asarray(a, dtype=float)
    h = 2.0 ** RNG.choice([-18, -22, -27, -33])
    return a + h * NPRNG.choice([-3, -2, -1, 1, 2, 3], a.shape)


def unit():
    """a unit of length, in which what is computed is recorded (exactly: it is a power of two)"""
    return 2.0 ** RNG.choice([-60, -30, -17, -8, 10, 25]) if RNG.random() < 0.35 else 1.0


def num(x):
    """a number as the specifications read it: exact, as a string"""
    if isinstance(x, (bool, np.bool_)):
        return "1" if x else "0"
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, Fraction):
        return str(x)
    x = float(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    n, d = x.as_integer_ratio()
    return str(n) if d == 1 else f"{n}/{d}"


def nums(a):
    """nested lists of numbers"""
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(a, (list, tuple)):
        return [nums(x) for x in a]
    return num(a)


def ints(a):
    return np.asarray(a).astype(int).tolist()


def bools(a):
    return np.asarray(a).astype(bool).tolist()


CURRENT = {}


def attempt(info):
    """note what is about to run in the code under test, for when it never returns"""
    CURRENT.clear()
    CURRENT.update(info)
    with open(ARGS.out + ".attempt", "w") as f:
        json.dump(info, f, default=lambda x: x.tolist() if isinstance(x, np.ndarray) and x.size < 2000 else str(x))


def guard(fn, *args, **kw):
    """('ok', result) or ('raise:<type>', message)"""
    try:
        return "ok", fn(*args, **kw)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # the code base raises BaseException itself
        return "raise:" + type(e).__name__, "".join(traceback.format_exception(e))[-1500:]


def write(traces, **extra):
    with open(ARGS.out, "w") as f:
        json.dump(traces, f)
    if extra:
        with open(ARGS.out + ".info", "w") as f:
            json.dump(extra, f)


def pick(*xs):
    return xs[RNG.randrange(len(xs))]
