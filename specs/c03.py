"""C03: walls."""
from .mdps import *


def post(E, st, m, N, A, sf, wf, what):
    """the contract: transition function and adjacency are those of the original with the walls wf"""
    sas = E.get(m, "sas", st)
    sh = E.shape(sas, st)
    E.prove(f"shape{what}", st, and_(eq(sh[0], N), eq(sh[1], A), eq(sh[2], N)))
    s, a, t = [E.int(x) for x in "sat"]
    rng = and_(0 <= s, s < N, 0 <= a, a < A, 0 <= t, t < N)
    E.prove(f"transition function is the original one without the walled states{what}", st,
            eq(E.rd(sas, st, s, a, t), masked(sf, wf)(s, a, t)), rng)
    w = E.get(m, "walls", st)
    E.prove(f"walls reads back{what}", st, and_(eq(E.shape(w, st)[0], N), eq(E.rd(w, st, s), wf(s))), rng)
    adj = E.get(m, "adjacency", st)
    v = E.rd(adj, st, s, t)
    E.prove(f"adjacency is 0 or 1{what}", st, or_(eq(v, 0), eq(v, 1)), rng)
    E.prove(f"adjacent when some action leads there{what}", st, implies(lt(0, masked(sf, wf)(s, a, t)), eq(v, 1)), rng)
    ok = adj_witness(E, st, adj, sas, s, t, A)
    E.prove(f"adjacent only when some action leads there{what}", st, implies(eq(v, 1), ok), rng)


def adj_witness(E, st, adj, sas, s, t, A):
    """exists a: sas[s,a,t] > 0 (as a reduction: any)"""
    from engine import nplib
    E.I.st = st
    f = E.I.arr_fn(sas)
    ph = [z3.Int("phs"), z3.Int("pht")]
    b = z3.Int("bva")
    app = E.ctx.reduction("any", ph, [b], T.zb(lt(0, f(ph[0], b, ph[1]))), [A])
    return app(s, t)


def constructor():
    E = Env("MDP()")
    hold = {}

    def wl(E, N):
        a, hold["f"] = walls_arr(E, N)
        return a
    outs, N, A, F, sf, feat, sas = mdp(E, wl)
    for o in E.no_raise(outs):
        post(E, o.st, o.val, N, A, sf, hold["f"], "")
        E.prove_same("the caller's transition array is not modified", sas, E.st, sas, o.st)
    E = Env("MDP() without walls")
    outs, N, A, F, sf, feat, sas = mdp(E)
    for o in E.no_raise(outs):
        post(E, o.st, o.val, N, A, sf, lambda s: 0, "")


def setter():
    """from the state of an MDP built with any walls, assigning walls w2 leads to the state of an MDP built with w2
    (all attributes): hence any history of assignments ends in the state that the last one alone gives"""
    E = Env("MDP.walls")
    N, A, F = dims(E)
    sas, sf = sas_arr(E, N, A)
    feat = E.arr("features", (F, N))
    w1, f1 = walls_arr(E, N, "w1")
    w2, f2 = walls_arr(E, N, "w2")
    base = E.st
    for o in E.no_raise(E.call("maMDP.mdp.MDP", [feat, sas, w1])):
        for o2 in E.no_raise(E.setattr(o.val, "walls", w2, st=o.st), " (assignment)"):
            post(E, o2.st, o.val, N, A, sf, f2, " after assignment")
            E.prove_same("features unchanged", E.get(o.val, "features", o.st), o.st, E.get(o.val, "features", o2.st), o2.st)
            for o3 in E.call("maMDP.mdp.MDP", [feat, sas, w2]):
                if o3.kind != "value":
                    continue
                E.prove_same("state after the assignment is that of an MDP built with these walls", o.val, o2.st, o3.val, o3.st)


def invalid():
    E = Env("MDP.walls rejects")
    N, A, F = dims(E)
    sas, sf = sas_arr(E, N, A)
    feat = E.arr("features", (F, N))
    w1, f1 = walls_arr(E, N, "w1")
    M, K = E.int("M"), E.int("K")
    E.assume(M >= 0, K >= 0)
    bad1 = E.arr("bad1", (M,), "float")
    bad2 = E.arr("bad2", (M, K), "float")
    v = E.fn("v", 1)
    bad3 = E.arr("bad3", (N,), fn=v)
    k = E.int("k")
    for o in E.no_raise(E.call("maMDP.mdp.MDP", [feat, sas, w1])):
        for nm, w, hyp, exc in (("wrong length", bad1, ne(M, N), ("AttributeError", "ValueError")), ("wrong rank", bad2, True, ("AttributeError", "ValueError")),
                           ("values other than 0 and 1", bad3, and_(0 <= k, k < N, v(k) != 0, v(k) != 1), ("ValueError", "AttributeError"))):
            st = o.st.clone()
            if hyp is not True:
                st.pc.append(hyp)
            E.reach(st, nm)
            for o2 in E.raises(E.setattr(o.val, "walls", w, st=st), exc, f" ({nm})"):
                E.prove_same(f"rejected walls leave the MDP unchanged ({nm})", o.val, st, o.val, o2.st)


def add_xy(cls, kinds):
    def f():
        for kind in kinds:
            E = Env(f"{cls}.add_wall_xy ({kind})")
            hold = {}

            def wl(E, N):
                a, hold["f"] = walls_arr(E, N)
                return a
            outs, W, H, N, A, F, sf, feat = grid_obj(E, cls, wl)
            x0, x1, y0, y1 = [E.int(v) for v in ("x0", "x1", "y0", "y1")]
            for o in E.no_raise(outs):
                st = o.st
                st.pc.append(and_(0 <= x0, x0 < x1, x1 <= W, 0 <= y0, y0 < y1, y1 <= H))
                wf = hold["f"]
                if kind == "range":
                    args = [(x0, x1), (y0, y1)]
                    inside = lambda x, y: and_(x0 <= x, x < x1, y0 <= y, y < y1)
                elif kind == "mixed":
                    E.I.st = st
                    args = [E.I.new_list([x0]), (y0, y1)]
                    inside = lambda x, y: and_(eq(x, x0), y0 <= y, y < y1)
                else:
                    args = [(x0,), (y0,)]
                    inside = lambda x, y: and_(eq(x, x0), eq(y, y0))
                for o2 in E.no_raise(E.method(o.val, "add_wall_xy", args, st=st), " (add_wall_xy)"):
                    x, y = E.int("x"), E.int("y")
                    rng = and_(0 <= x, x < W, 0 <= y, y < H)
                    s = T.add(T.mul(x, H), y)
                    w = E.get(o.val, "walls", o2.st)
                    E.prove("walls are the previous ones plus exactly the named cells", o2.st,
                            eq(E.rd(w, o2.st, s), ite(inside(x, y), 1, wf(s))), rng)
                    sas = E.get(o.val, "sas", o2.st)
                    u, a, t = E.int("u"), E.int("a"), E.int("t")
                    r2 = and_(0 <= u, u < N, 0 <= a, a < A, 0 <= t, t < N)
                    wn = lambda q: E.rd(w, o2.st, q)
                    E.prove("transition function follows the new walls", o2.st, eq(E.rd(sas, o2.st, u, a, t), masked(sf, wn)(u, a, t)), r2)
    return f


def reset_walls():
    E = Env("GridMDP.reset_walls")
    hold = {}

    def wl(E, N):
        a, hold["f"] = walls_arr(E, N)
        return a
    outs, W, H, N, A, F, sf, feat = grid_obj(E, "SquareGridMDP", wl)
    for o in E.no_raise(outs):
        for o2 in E.no_raise(E.method(o.val, "reset_walls", [], st=o.st), " (reset_walls)"):
            post(E, o2.st, o.val, N, A, sf, lambda s: 0, " after reset_walls")


SECTIONS = [
    ("MDP constructor with walls", constructor),
    ("MDP.walls assignment from any state", setter),
    ("MDP.walls rejects invalid arrays", invalid),
    ("GridMDP.add_wall_xy (square, ranges)", add_xy("SquareGridMDP", ["range"])),
    ("GridMDP.add_wall_xy (square, single cells and mixed)", add_xy("SquareGridMDP", ["single", "mixed"])),
    ("GridMDP.add_wall_xy (hexagonal)", add_xy("HexGridMDP", ["range", "single"])),
    ("GridMDP.reset_walls", reset_walls),
]
