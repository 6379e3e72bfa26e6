from falsify.util import *
from falsify import c01


def gen(rng, i):
    if i % 3 != 2 or i < 28:
        c = c01.gen(rng, i)
        c["kind"] = "hex"
        return c
    return {"kind": "dist", "pts": [[rng.randint(0, 9), rng.randint(0, 9)] for _ in range(rng.randint(2, 5))]}


def cube(x, y):
    z = y - (x + (x & 1)) // 2
    return x, -x - z, z


def ref_dist(a, b):
    p, q = cube(*a), cube(*b)
    return sum(abs(u - v) for u, v in zip(p, q)) / 2


def test(c):
    if c["kind"] == "hex":
        return c01.test(c)
    hex_dist = opt("maMDP.grid_utils", "hex_dist")
    od = opt("maMDP.grid_utils", "offset_distance")
    pts = [tuple(p) for p in c["pts"]]
    A = np.array(pts)
    D = np.asarray(hex_dist(A, A))
    req(D.shape == (len(pts), len(pts)), "distance matrix has shape {}", D.shape)
    for i, p in enumerate(pts):
        for j, q in enumerate(pts):
            r = ref_dist(p, q)
            req(D[i, j] == r, "distance between {} and {} is {} instead of {}", p, q, D[i, j], r)
            req(od(p[0], p[1], q[0], q[1]) == r, "offset_distance {} {} gives {} instead of {}", p, q, od(p[0], p[1], q[0], q[1]), r)
