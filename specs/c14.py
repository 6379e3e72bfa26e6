"""C14: tree search expands unvisited successors first, then follows the upper confidence bound."""
from .base import *

MC = "maMDP.algorithms.mcts."


def world(E):
    N, A = E.int("N"), E.int("A")
    E.assume(N >= 1, A >= 1)
    P = E.fn("sas", 3)
    s, a, t = [z3.Int("w_" + x) for x in "sat"]
    E.forall([s, a, t], and_(P(s, a, t) >= 0, P(s, a, t) <= 1))
    return N, A, P, E.arr("sas", (N, A, N), fn=P)


def actions_states():
    E = Env("get_actions_states")
    N, A, P, sas = world(E)
    node = E.int("node")
    E.assume(0 <= node, node < N)
    for o in E.no_raise(E.call(MC + "get_actions_states", [sas, node])):
        both, acts, sts = o.val
        n = acts.shape[0]
        k, j = E.int("k"), E.int("j")
        rk = and_(0 <= k, k < n)
        a, t = E.rd(acts, o.st, k), E.rd(sts, o.st, k)
        E.prove("as many states as actions", o.st, and_(eq(sts.shape[0], n), eq(both.shape[0], n), acts.ndim == 1, sts.ndim == 1, both.ndim == 2))
        E.prove("each entry is an action with a state it can lead to", o.st, and_(0 <= a, a < A, 0 <= t, t < N, ne(P(node, a, t), 0)), rk)
        E.prove("the pairs are the same as the two lists", o.st, and_(eq(E.rd(both, o.st, k, 0), a), eq(E.rd(both, o.st, k, 1), t)), rk)
        a2, t2 = E.int("a2"), E.int("t2")
        b = z3.Int("ent_b")
        hit = E.ctx.reduction("any", [a2, t2], [b], T.zb(and_(eq(E.rd(acts, o.st, b), a2), eq(E.rd(sts, o.st, b), t2))), [n])(a2, t2)
        E.prove("every action with every state it can lead to is listed", o.st, hit, and_(0 <= a2, a2 < A, 0 <= t2, t2 < N, ne(P(node, a2, t2), 0)))
        E.prove("no pair is listed twice", o.st, or_(ne(E.rd(acts, o.st, j), a), ne(E.rd(sts, o.st, j), t)), rk, and_(0 <= j, j < k))


def tree(E):
    """values and visit counts of the states, candidate states"""
    N, m, C, node = E.int("N"), E.int("m"), E.real("C"), E.int("node")
    E.assume(N >= 1, m >= 1, 0 <= node, node < N)
    V, cnt, sf = E.fn("V", 1), E.fn("cnt", 1), E.fn("states", 1, "int")
    s, k = z3.Int("t_s"), z3.Int("t_k")
    E.forall([s], cnt(s) >= 0)
    E.forall([k], and_(0 <= sf(k), sf(k) < N))
    return N, m, C, node, V, cnt, sf, E.arr("V", (N,), fn=V), E.arr("cnt", (N,), fn=cnt), E.arr("states", (m,), "int", fn=sf)


def bound(V, cnt, C, node, t):
    """upper confidence bound of state t seen from node"""
    d = T.add(1, cnt(t))
    return T.add(T.truediv_fin(V(t), d), T.mul(C, T.SQRT(T.zr(T.truediv_fin(T.mul(2, T.LOG(T.zr(cnt(node)))), d)))))


def ucb():
    E = Env("UCB")
    N, m, C, node, V, cnt, sf, VA, NA, ST = tree(E)
    E.assume(cnt(node) >= 1)
    k = E.int("k")
    for o in E.no_raise(E.call(MC + "UCB", [VA, NA, ST, C, node])):
        E.prove("one bound per candidate", o.st, o.val.ndim == 1 and eq(o.val.shape[0], m))
        E.prove("mean value plus exploration bonus", o.st, eq(E.rd(o.val, o.st, k), bound(V, cnt, C, node, sf(k))), and_(0 <= k, k < m))


def anyst(E, m, sf, cond):
    b = z3.Int("an_b")
    return E.ctx.reduction("any", [], [b], T.zb(cond(sf(b))), [m])()


def next_node(expand):
    def run():
        E = Env("MCTS_next_node (%s)" % ("expanding" if expand else "simulating"))
        N, m, C, node, V, cnt, sf, VA, NA, ST = tree(E)
        U = E.fn("ucb", 1)
        seen = []

        def h(I, fv, args, kw):
            got = dict(zip(["V", "N", "states", "C", "node"], args))
            got.update(kw)
            s, k = E.int("s"), E.int("k")
            I.oblige("the bounds are those of the candidates seen from the current node",
                     and_(eq(got["node"], node), eq(got["C"], C), eq(got["states"].shape[0], m), implies(and_(0 <= k, k < m), eq(E.rd(got["states"], I.st, k), sf(k))),
                          implies(and_(0 <= s, s < N), and_(eq(E.rd(got["V"], I.st, s), V(s)), eq(E.rd(got["N"], I.st, s), cnt(s))))))
            return I.new_arr((m,), "float", U)
        E.I.contracts[MC + "UCB"] = h
        fresh = anyst(E, m, sf, lambda t: eq(cnt(t), 0))
        for o in E.no_raise(E.call(MC + "MCTS_next_node", [expand, VA, NA, ST, C, node])):
            nx, ex = o.val
            k = E.int("k")
            E.prove("the next node is one of the candidates", o.st, anyst(E, m, sf, lambda t: eq(t, nx)))
            if expand:
                E.prove("while there are unvisited candidates, one of them is chosen", o.st, and_(0 <= nx, nx < N, eq(cnt(nx), 0)), fresh)
                E.prove("after expanding, the rest is simulated", o.st, eq(ex, False), fresh)
                b = z3.Int("be_b")
                best = E.ctx.reduction("any", [k], [b], T.zb(and_(eq(sf(b), nx), le(U(k), U(b)))), [m])(k)
                E.prove("otherwise a candidate with the highest bound is chosen", o.st, best, not_(fresh), and_(0 <= k, k < m))
                E.prove("and the search goes on selecting", o.st, eq(ex, True), not_(fresh))
            else:
                E.prove("the rest of the path is simulated", o.st, eq(ex, False))
            for nm, a in (("values", VA), ("visit counts", NA), ("candidates", ST)):
                E.prove_same(nm + " unchanged", a, E.st, a, o.st)
    return run


def action_values():
    E = Env("get_MCTS_action_values")
    N, A, P, sas = world(E)
    node = E.int("node")
    E.assume(0 <= node, node < N)
    V, cnt = E.fn("V", 1), E.fn("cnt", 1)
    s = z3.Int("t_s")
    E.forall([s], cnt(s) >= 0)
    VA, NA = E.arr("V", (N,), fn=V), E.arr("cnt", (N,), fn=cnt)
    for o in E.no_raise(E.call(MC + "get_MCTS_action_values", [node, sas, VA, NA])):
        acts, vals, sts = o.val
        k = E.int("k")
        n = acts.shape[0]
        rk = and_(0 <= k, k < n)
        a, t = E.rd(acts, o.st, k), E.rd(sts, o.st, k)
        E.prove("one value per action", o.st, and_(eq(vals.shape[0], n), eq(sts.shape[0], n)))
        E.prove("only available actions, with the state they lead to", o.st, and_(0 <= a, a < A, 0 <= t, t < N, ne(P(node, a, t), 0)), rk)
        E.prove("the value of an action is the mean value of the state it leads to (one extra visit counted)", o.st,
                eq(E.rd(vals, o.st, k), T.truediv_fin(V(t), T.add(1, cnt(t)))), rk)
        a2, t2 = E.int("a2"), E.int("t2")
        b = z3.Int("ent_b")
        hit = E.ctx.reduction("any", [a2, t2], [b], T.zb(and_(eq(E.rd(acts, o.st, b), a2), eq(E.rd(sts, o.st, b), t2))), [n])(a2, t2)
        E.prove("every available action has a value", o.st, hit, and_(0 <= a2, a2 < A, 0 <= t2, t2 < N, ne(P(node, a2, t2), 0)))


SECTIONS = [
    ("get_actions_states", actions_states),
    ("UCB", ucb),
    ("MCTS_next_node (expanding)", next_node(True)),
    ("MCTS_next_node (simulating)", next_node(False)),
    ("get_MCTS_action_values", action_values),
]
