"""Rotations, normalisation, cross products and their backward passes; finite differences."""
from common import *  # noqa

from deodr import tools as T


def small(x, den=64):
    return np.round(np.asarray(x, dtype=float) * den) / den


def vec(*shape):
    return small(NPRNG.randn(*shape) * RNG.choice([0.5, 1, 4]))


def turn():
    k = RNG.random()
    if k < 0.2:  # quarter and half turns, the identity and its opposite
        q = np.zeros(4)
        q[RNG.randrange(4)] = RNG.choice([-1, 1])
    elif k < 0.3:
        q = np.zeros(4)
        i, j = RNG.sample(range(4), 2)
        q[i], q[j] = RNG.choice([-1, 1]), RNG.choice([-1, 1])
    else:
        q = NPRNG.randn(4)
    return q / np.linalg.norm(q)


class Kept:
    def __init__(self, *a):
        self.a, self.b = a, [x.copy() for x in a]

    def __call__(self):
        return all(np.array_equal(x, y) for x, y in zip(self.a, self.b))


def rotate():
    n = RNG.randint(1, 4)
    q = np.array([turn() for _ in range(RNG.randint(1, 3))])
    loud = loudness()
    v, adj = vec(n, 3), vec(len(q), n, 3) * loud
    kept = Kept(q, v, adj)

    def go():
        back = [T.qrot_backward(a, v, b) for a, b in zip(q, adj)]
        return dict(out=nums(np.array([T.qrot(a, v) for a in q])), all=nums(T.qrot(q, v)), qb=nums(np.array([a for a, _ in back]) / loud),
                    vb=nums(np.array([b for _, b in back]) / loud))

    s, r = guard(go)
    return dict(r if s == "ok" else dict(message=r), op="rotate", status=s, q=nums(q), v=nums(v), adj=nums(adj / loud), kept=kept())


def pose():
    n = RNG.randint(1, 4)
    w = unit()
    q = turn() * RNG.choice([1, 0.25, 3, 100]) * w
    s = RNG.choice([0.125, 2, 7])
    loud = loudness()
    v, adj = vec(n, 3), vec(n, 3) * loud
    kept = Kept(q, v, adj)

    def one(q):
        u = T.normalize(q)
        return T.qrot(u, v), T.normalize_backward(q, T.qrot_backward(u, v, adj)[0])

    st, r = guard(lambda: [one(q), one(s * q)])
    r = dict(out=nums(r[0][0]), qb=nums(r[0][1] * w / loud), scaled=nums(r[1][0]), sqb=nums(r[1][1] * w / loud)) if st == "ok" else dict(message=r)
    return dict(r, op="pose", status=st, q=nums(q / w), v=nums(v), adj=nums(adj / loud), s=num(s), kept=kept())


def normalise():
    n, d = RNG.randint(1, 4), RNG.randint(1, 5)
    w = unit()
    loud = loudness()
    x, adj = vec(n, d) * w, vec(n, d) * loud
    for row in x:
        if RNG.random() < 0.15:
            row[:] = 0
    kept = Kept(x, adj)
    axis = RNG.choice([-1, 1, 0, None, 2])
    if axis is None:  # a single vector, the default axis
        x, adj = x[:1], adj[:1]
        call = lambda: (T.normalize(x[0])[None], T.normalize_backward(x[0], adj[0])[None])
    elif axis == 0:
        call = lambda: (T.normalize(x.T.copy(), axis=0).T, T.normalize_backward(x.T.copy(), adj.T.copy(), axis=0).T)
    elif axis == 2:  # more dimensions
        call = lambda: (T.normalize(x[None, :, :])[0], T.normalize_backward(x[None, :, :], adj[None, :, :])[0])
    else:
        call = lambda: (T.normalize(x, axis=axis), T.normalize_backward(x, adj, axis=axis))
    s, r = guard(call)
    return dict(dict(out=nums(r[0]), b=nums(r[1] * w / loud)) if s == "ok" else dict(message=r), op="normalise", status=s, x=nums(x / w), adj=nums(adj / loud), kept=kept())


def cross():
    n = RNG.randint(1, 4)
    loud = loudness()
    u, v, adj = vec(n, 3), vec(n, 3), vec(n, 3) * loud
    kept = Kept(u, v, adj)
    s, r = guard(lambda: T.cross_backward(u, v, adj))
    return dict(dict(ub=nums(r[0] / loud), vb=nums(r[1] / loud)) if s == "ok" else dict(message=r), op="cross", status=s, u=nums(u), v=nums(v), adj=nums(adj / loud), kept=kept())


def differences():
    shape = RNG.choice([(3,), (2, 2), (1, 3), (4,)])
    n, m = int(np.prod(shape)), RNG.randint(1, 3)
    x, a, b = vec(n).reshape(shape), vec(m, n), small(NPRNG.rand(m, n))
    idle = []
    if RNG.random() < 0.4:  # numbers that the function does not depend on
        idle = RNG.sample(range(n), RNG.randint(1, n - 1))
        a[:, idle] = b[:, idle] = 0
    kept = Kept(x, a, b)

    def f(y):
        return a.dot(y.ravel()) + b.dot(y.ravel()) ** 2

    calls = []

    def moods(y):
        calls.append(1)
        return f(y) + 0.01 * len(calls)

    s, jac = guard(lambda: T.jacobian_finite_differences(f, x))
    exact = a + 2 * b * b.dot(x.ravel())[:, None]
    tol = RNG.choice([1e-4, 1e-3, None])
    tries = []
    for _ in range(6):
        j = exact.copy()
        if RNG.random() < 0.7:
            j[RNG.randrange(m), RNG.choice(idle or range(n)) if RNG.random() < 0.5 else RNG.randrange(n)] += RNG.choice([-1, 1]) * RNG.choice([0.5, 0.8, 1.5, 3, 100]) * (tol or 1e-4)
        jj = j[0] if m == 1 and RNG.random() < 0.5 else j
        ok = guard(lambda: T.check_jacobian_finite_differences(jj, f, x, **({} if tol is None else dict(tol=tol))))[0] == "ok"
        tries.append(dict(j=nums(j), ok=ok))
    moody = guard(lambda: T.jacobian_finite_differences(moods, x))[0] == "ok"
    return dict(op="differences", status=s, jac=nums(jac) if s == "ok" else [], x=nums(x.ravel()), a=nums(a), b=nums(b), tries=tries, moody=moody,
                tol=num(tol or 1e-4), kept=kept())


K = 10 if THOROUGH else 1
FAMILIES = {
    "rotations": lambda: [f() for f in (rotate, pose) for _ in range(80 * K)],
    "products": lambda: [f() for f in (normalise, cross) for _ in range(80 * K)],
    "differences": lambda: [differences() for _ in range(60 * K)],
}
write(FAMILIES[ARGS.family]())
