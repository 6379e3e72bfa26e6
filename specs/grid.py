"""Contracts of the grid MDPs (used by several properties)."""
from .base import *

DS = {0: (0, 1), 1: (1, 0), 2: (0, -1), 3: (-1, 0)}
HODD = {0: (0, 1), 3: (0, -1), 1: (1, 0), 5: (-1, 0), 2: (1, -1), 4: (-1, -1)}
HEVEN = {0: (0, 1), 3: (0, -1), 1: (1, 1), 5: (-1, 1), 2: (1, 0), 4: (-1, 0)}


def build(E, cls):
    """construct the grid MDP with symbolic shape, features and self-transition flag; returns (outs, W, H, b)"""
    W, H = E.int("W"), E.int("H")
    E.assume(W >= 1, H >= 1)
    nf = E.int("nf")
    E.assume(nf >= 1)
    feat = E.arr("features", (nf, T.mul(W, H)))
    b = E.bool("selft")
    outs = E.call(f"maMDP.mdp.{cls}", [feat], dict(shape=(W, H), self_transitions=b))
    return outs, W, H, b


def step_to(kind, k, x, y, x2, y2):
    """spec function: (x2,y2) is the neighbour of (x,y) in direction k"""
    def d(t):
        return and_(eq(x2, T.add(x, t[0])), eq(y2, T.add(y, t[1])))
    if kind == "square":
        return d(DS[k])
    return ite(eq(T.mod(x, 2), 1), d(HODD[k]), d(HEVEN[k]))


def transitions(cls, kind, nact):
    def f():
        E = Env(f"{cls}()")
        outs, W, H, b = build(E, cls)
        for o in E.no_raise(outs):
            st = o.st
            sas = E.get(o.val, "sas", st)
            sh = E.shape(sas, st)
            N = T.mul(W, H)
            E.prove("sas has shape (W*H, actions, W*H)", st, and_(eq(sh[0], N), eq(sh[1], ite(b, nact + 1, nact)), eq(sh[2], N)))
            x, y, x2, y2 = [E.int(v) for v in ("x", "y", "x2", "y2")]
            rng = and_(0 <= x, x < W, 0 <= x2, x2 < W, 0 <= y, y < H, 0 <= y2, y2 < H)
            s, s2 = T.add(T.mul(x, H), y), T.add(T.mul(x2, H), y2)
            for k in range(nact):
                E.prove(f"action {k} leads exactly to the neighbour in its direction", st,
                        eq(E.rd(sas, st, s, k, s2), ite(step_to(kind, k, x, y, x2, y2), 1, 0)), rng)
            E.prove("the self action leads exactly to the same state", st, eq(E.rd(sas, st, s, nact, s2), ite(eq(s, s2), 1, 0)), rng, b)
            E.prove("n_states", st, eq(E.get(o.val, "n_states", st), N))
            E.prove("n_actions", st, eq(E.get(o.val, "n_actions", st), ite(b, nact + 1, nact)))
            gc = E.get(o.val, "grid_coords", st)
            E.prove("coordinates of state x*H+y are (x, y)", st, and_(eq(E.rd(gc, st, s, 0), x), eq(E.rd(gc, st, s, 1), y)), rng)
    return f


def coords(cls):
    def f():
        E = Env(f"{cls} coordinates")
        outs, W, H, b = build(E, cls)
        for o in E.no_raise(outs):
            st, m = o.st, o.val
            x, y = E.int("x"), E.int("y")
            rng = and_(0 <= x, x < W, 0 <= y, y < H)
            s = T.add(T.mul(x, H), y)
            st.pc.append(rng)
            for o2 in E.no_raise(E.method(m, "get_state_coords", [s], st=st), " (get_state_coords)"):
                E.prove("get_state_coords(x*H+y) == (x, y)", o2.st, and_(eq(E.item(o2.val, 0, o2.st), x), eq(E.item(o2.val, 1, o2.st), y)))
            for o2 in E.no_raise(E.method(m, "state_to_idx", [s], st=st), " (state_to_idx)"):
                E.prove("state_to_idx(x*H+y) == (x, y)", o2.st, and_(eq(E.item(o2.val, 0, o2.st), x), eq(E.item(o2.val, 1, o2.st), y)))
            for o2 in E.no_raise(E.method(m, "idx_to_state", [(x, y)], st=st), " (idx_to_state)"):
                E.prove("idx_to_state((x, y)) == x*H+y", o2.st, eq(o2.val, s))
            N = T.mul(W, H)
            E.st.heap = dict(st.heap)
            E.I.st = st
            v = E.I.new_arr((N,), "float", E.fn("v", 1))
            for o2 in E.no_raise(E.method(m, "flat_to_grid", [v], st=st), " (flat_to_grid)"):
                sh = E.shape(o2.val, o2.st)
                E.prove("flat_to_grid has the shape of the grid", o2.st, and_(eq(sh[0], W), eq(sh[1], H)) if len(sh) == 2 else False)
                E.prove("flat_to_grid(v)[x, y] == v[x*H+y]", o2.st, eq(E.rd(o2.val, o2.st, x, y), E.rd(v, o2.st, s)))
    return f
