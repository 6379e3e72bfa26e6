"""C02: hexagonal-grid transitions and distance."""
from .grid import *


def distance():
    E = Env("hex_dist")
    n, m = E.int("n"), E.int("m")
    E.assume(n >= 1, m >= 1)
    A, B = E.arr("A", (n, 2), "int"), E.arr("B", (m, 2), "int")
    for o in E.no_raise(E.call("maMDP.grid_utils.hex_dist", [A, B])):
        i, j = E.int("i"), E.int("j")
        r = and_(0 <= i, i < n, 0 <= j, j < m)
        sh = E.shape(o.val, o.st)
        E.prove("shape", o.st, and_(eq(sh[0], n), eq(sh[1], m)))
        d = E.rd(o.val, o.st, i, j)
        a = [E.rd(A, o.st, i, k) for k in (0, 1)]
        b = [E.rd(B, o.st, j, k) for k in (0, 1)]
        E.prove("entry (i, j) is the hexagonal distance between the two cells", o.st, eq(d, ref(a, b)), r)
        E.prove("distance is 1 exactly between neighbours", o.st,
                iff(eq(d, 1), or_(*[step_to("hex", k, a[0], a[1], b[0], b[1]) for k in range(6)])), r)


def ref(a, b):
    """spec function: cube-coordinate distance (exact, integer)"""
    def cube(x, y):
        z = T.sub(y, T.floordiv(T.add(x, T.mod(x, 2)), 2))
        return x, T.sub(T.neg(x), z), z
    p, q = cube(*a), cube(*b)
    d = [T.abs_(T.sub(u, v)) for u, v in zip(p, q)]
    return T.floordiv(T.add(T.add(d[0], d[1]), d[2]), 2)


def metric():
    E = Env("hexagonal distance is a metric")
    a, b, c = [(E.int(n + "x"), E.int(n + "y")) for n in "abc"]
    E.prove("zero exactly on equal cells", E.st, iff(eq(ref(a, b), 0), and_(eq(a[0], b[0]), eq(a[1], b[1]))))
    E.prove("symmetric", E.st, eq(ref(a, b), ref(b, a)))
    E.prove("triangle inequality", E.st, le(ref(a, c), T.add(ref(a, b), ref(b, c))))


def opposite():
    E = Env("opposite moves")
    x, y, x2, y2 = [E.int(v) for v in ("x", "y", "x2", "y2")]
    for k in range(6):
        E.prove(f"action {(k + 3) % 6} undoes action {k}", E.st,
                iff(step_to("hex", k, x, y, x2, y2), step_to("hex", (k + 3) % 6, x2, y2, x, y)))


SECTIONS = [
    ("HexGridMDP: transition function", transitions("HexGridMDP", "hex", 6)),
    ("HexGridMDP: coordinates", coords("HexGridMDP")),
    ("hex_dist", distance),
    ("lemma: metric", metric),
    ("lemma: opposite moves", opposite),
]
