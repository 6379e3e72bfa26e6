"""C15: tree-search iterations are paths of the world, add up the rewards met on the way, and are backed up once per visit."""
from .mdps import *

MC = "maMDP.algorithms.mcts."


def iteration(moves):
    """one iteration of a search that ignores other agents"""
    def run():
        E = Env("mcts_iteration (alone)")
        N, A, F = E.int("N"), E.int("A"), E.int("F")
        E.assume(N >= 1, A >= 1, F >= 1)
        P = E.fn("sas", 3)
        n = E.int("n")
        E.assume(n >= 1)
        F0, w = E.fn("features", 2), E.fn("rf", 1)
        cons = E.fn("consumes", 1, "bool")
        mark, p0 = E.int("marker"), E.int("p0")
        E.assume(0 <= mark, mark < F, 0 <= p0, p0 < N)
        V, cnt = E.arr("V", (N,)), E.arr("cnt", (N,))
        sas = E.arr("sas", (N, A, N), fn=P)
        ft = E.arr("features", (F, N), fn=F0)
        node = E.arr("node", (1,), "int", fn=lambda i: p0)
        cf = E.arr("consumes", (1, F), "bool", fn=lambda i, f: cons(f))
        rf = E.arr("rf", (1, F), fn=lambda i, f: w(f))
        ca = E.arr("ca", (1, 1), "bool")
        C = E.real("C")
        # the candidates of each state (contract of get_actions_states, C14)
        Sf, Af, Mn = E.fn("succ", 2, "int"), E.fn("act", 2, "int"), E.fn("nsucc", 1, "int")
        s, j = z3.Int("c_s"), z3.Int("c_j")
        E.forall([s], implies(and_(0 <= s, s < N), Mn(s) >= 1))
        E.forall([s, j], implies(and_(0 <= s, s < N, 0 <= j, j < Mn(s)), and_(0 <= Sf(s, j), Sf(s, j) < N, 0 <= Af(s, j), Af(s, j) < A, ne(P(s, Af(s, j), Sf(s, j)), 0))))

        def gas(I, fv, args, kw):
            a, x = (args + [kw.get("current_node")])[:2] if len(args) < 2 else args[:2]
            i = [E.int("q%d" % i) for i in range(3)]
            I.oblige("the candidates are taken from the world's transitions", implies(and_(0 <= i[0], i[0] < N, 0 <= i[1], i[1] < A, 0 <= i[2], i[2] < N), eq(E.rd(a, I.st, *i), P(*i))))
            I.oblige("the current node is a state", and_(le(0, x), lt(x, N)))
            m = Mn(x)
            return (I.new_arr((m, 2), "int", lambda k, c: ite(eq(c, 0), Af(x, k), Sf(x, k))), I.new_arr((m,), "int", lambda k: Af(x, k)), I.new_arr((m,), "int", lambda k: Sf(x, k)))
        E.I.contracts[MC + "get_actions_states"] = gas

        # the nodes chosen (contract of MCTS_next_node, C14): the k-th is X(k), the J(k)-th candidate; EX(k): still selecting afterwards
        X, J, EX = E.fn("X", 1, "int"), E.fn("J", 1, "int"), E.fn("EX", 1, "bool")
        g = E.obj("maMDP.mdp.MDP", calls=0)
        cur = lambda k: ite(eq(k, 0), p0, X(T.sub(k, 1)))

        def nxt(I, fv, args, kw):
            got = dict(zip(["expand", "V", "N", "states", "C", "current_node"], args))
            got.update(kw)
            k = I.st.heap[g.cid].fields["calls"]
            x = cur(k)
            i = E.int("i_c")
            I.oblige("the choice is made among the candidates of the node reached so far",
                     and_(eq(got["current_node"], x), eq(got["states"].shape[0], Mn(x)), implies(and_(0 <= i, i < Mn(x)), eq(E.rd(got["states"], I.st, i), Sf(x, i)))))
            I.oblige("selection starts at the root and stops for good once a node was expanded", iff(T.zb(got["expand"]), ite(eq(k, 0), True, EX(T.sub(k, 1)))))
            I.oblige("the choice uses the current values and visits", and_(eq(got["C"], C), E.equal(got["V"], I.st, V, E.st), E.equal(got["N"], I.st, cnt, E.st)))
            I.assume(and_(le(0, J(k)), lt(J(k), Mn(x)), eq(X(k), Sf(x, J(k))), le(0, X(k)), lt(X(k), N)), "MCTS_next_node")
            c = I.st.heap[g.cid]
            I.st.heap[g.cid] = ObjCell(c.cls, dict(c.fields, calls=T.add(k, 1)))
            return (X(k), EX(k))
        E.I.contracts[MC + "MCTS_next_node"] = nxt

        gone = lambda k, s: E.ctx.reduction("any", [k, s], [z3.Int("go_b")], eq(X(z3.Int("go_b")), s), [k])(k, s)
        kk, ss = z3.Int("go_k"), z3.Int("go_s")
        GO = E.ctx.reduction("any", [kk, ss], [z3.Int("go_b")], eq(X(z3.Int("go_b")), ss), [kk])
        left = lambda k, f, s: ite(and_(cons(f), GO(T.zi(k), T.zi(s))), 0, F0(f, s))
        feat = lambda k, f, s: ite(eq(f, mark), ite(eq(s, cur(k)), 1, 0), left(k, f, s))
        before = lambda k, f, s: ite(and_(eq(f, mark), lt(0, k)), ite(and_(cons(f), eq(s, X(T.sub(k, 1)))), 0, feat(T.sub(k, 1), f, s)), left(k, f, s))
        E.closed(lambda L, key: key.kind == "a" and key.dtype == "float" and len(L.shape_of(key)) == 2, before)
        E.ctx.loop_prev = True
        args = [False, V, cnt, sas, sas, ft, node, E.list([]), E.list([E.list([n])]), ca, cf, (T.Fraction(0),), rf, E.list([mark]), C]
        for o in E.no_raise(E.call(MC + "mcts_iteration", args)):
            rew, vis = o.val[0], o.val[1]
            k = E.int("k")
            E.I.st = o.st
            rk = and_(0 <= k, k < n)
            E.prove("one node per step", o.st, eq(E.I.length(vis), n))
            E.prove("as many nodes are chosen as steps are made", o.st, eq(o.st.heap[g.cid].fields["calls"], n))
            E.prove("the path is the sequence of nodes chosen", o.st, eq(E.at(vis, k, o.st), X(k)), rk)
            E.prove("every step follows an available action from the previous node", o.st, and_(0 <= Af(cur(k), J(k)), Af(cur(k), J(k)) < A, 0 <= X(k), X(k) < N, ne(P(cur(k), Af(cur(k), J(k)), X(k)), 0)), rk)
            E.prove("the reward is the sum of the rewards met: of the features left in each node entered", o.st,
                    eq(rew, E.psum(lambda k: E.psum(lambda f: T.mul(w(f), feat(k, f, X(k))), F), n, bound=True)))
            for nm, a in (("values", V), ("visit counts", cnt), ("transition function", sas), ("features", ft), ("starting nodes", node), ("reward functions", rf)):
                E.prove_same(nm + " unchanged", a, E.st, a, o.st)
    return run



def search(keep):
    """the search as a whole: every iteration starts from the same situation, and is backed up once per visit"""
    def run():
        E = Env("run_mcts" + (" (recording the paths)" if keep else ""))
        N, A, F, n = E.int("N"), E.int("A"), E.int("F"), E.int("n_iter")
        E.assume(N >= 1, A >= 1, F >= 1, n >= 0)
        P, F0 = E.fn("sas", 3), E.fn("features", 2)
        sas, ft, sr = E.arr("sas", (N, A, N), fn=P), E.arr("features", (F, N), fn=F0), E.arr("sr", (N, A, N))
        C = E.real("C")
        w, cons = E.fn("rf", 1), E.fn("consumes", 1, "bool")
        p0, mv, mark = E.int("p0"), E.int("moves"), E.int("marker")
        E.assume(0 <= p0, p0 < N)
        node = E.arr("node", (1,), "int", fn=lambda i: p0)
        cf, rf = E.arr("consumes", (1, F), "bool", fn=lambda i, f: cons(f)), E.arr("rf", (1, F), fn=lambda i, f: w(f))
        ca = E.arr("ca", (1, 1), "bool")
        info, opp = E.dict([("me", 0)]), E.dict([])
        nm, idx = E.list([mv]), E.list([mark])

        def ex(I, fv, args, kw):
            I.oblige("the search uses the given agents", and_(E.equal(args[0], I.st, info, E.st), E.equal(args[1], I.st, opp, E.st)))
            return (node, nm, cf, rf, (T.Fraction(0),), ca, idx)
        E.I.contracts[MC + "extract_all_agent_info"] = ex
        R, Ln, X = E.fn("R", 1), E.fn("len", 1, "int"), E.fn("X", 2, "int")
        i, k = z3.Int("r_i"), z3.Int("r_k")
        E.forall([i], Ln(i) >= 0)
        E.forall([i, k], implies(and_(0 <= k, k < Ln(i)), and_(0 <= X(i, k), X(i, k) < N)))
        g = E.obj("maMDP.mdp.MDP", calls=0)
        vs = E.fn("value", 2)
        value = lambda t, s: E.psum(lambda i: E.psum(lambda k: ite(eq(s, X(i, k)), R(i), T.Fraction(0)), Ln(i), bound=True), t, bound=True)
        visits = lambda t, s: E.psum(lambda i: E.psum(lambda k: ite(eq(s, X(i, k)), T.Fraction(1), T.Fraction(0)), Ln(i), bound=True), t, bound=True)

        def it(I, fv, args, kw):
            t = I.st.heap[g.cid].fields["calls"]
            names = ["interactive", "V", "N", "sas", "sr", "features", "current_node", "cached_q_values", "n_moves", "consumes_agents", "consumes_features",
                     "agent_values", "reward_functions", "agent_feature_idx", "C", "caught_cost", "opponent_policy_method", "opponent_algorithm", "opponent_action_selection",
                     "softmax_temperature", "caching", "return_other_agent_states", "verbose"]
            got = dict(zip(names, args))
            got.update(kw)
            q = [E.int("it_%d" % j) for j in range(3)]
            rq = [and_(0 <= a, a < b) for a, b in zip(q, (N, A, N))]
            I.oblige("every iteration starts from the same features", implies(and_(0 <= q[1], q[1] < F, rq[0]), eq(E.rd(got["features"], I.st, q[1], q[0]), F0(q[1], q[0]))))
            I.oblige("every iteration uses the same transitions", implies(and_(*rq), eq(E.rd(got["sas"], I.st, *q), P(*q))))
            I.oblige("every iteration starts where the agent is", and_(eq(got["current_node"].shape[0], 1), eq(E.rd(got["current_node"], I.st, 0), p0)))
            I.oblige("every iteration uses the agent's reward function and consumption", implies(and_(0 <= q[0], q[0] < F), and_(eq(E.rd(got["reward_functions"], I.st, 0, q[0]), w(q[0])), iff(E.rd(got["consumes_features"], I.st, 0, q[0]), cons(q[0])))))
            I.oblige("not interactive, with the given exploration parameter", and_(eq(got["interactive"], False), eq(got["C"], C)))
            outer = I.iter_at(got["n_moves"], 0)
            I.oblige("the agent's own number of moves", and_(eq(I.length(got["n_moves"]), 1), eq(I.length(outer), 1), eq(I.iter_at(outer, 0), mv)))
            I.oblige("the values backed up so far are used", implies(rq[0], eq(E.rd(got["V"], I.st, q[0]), value(t, q[0]))))
            I.oblige("the visits counted so far are used", implies(rq[0], eq(E.rd(got["N"], I.st, q[0]), visits(t, q[0]))))
            c = I.st.heap[g.cid]
            I.st.heap[g.cid] = ObjCell(c.cls, dict(c.fields, calls=T.add(t, 1)))
            return (R(t), I.new_list(None, Ln(t), lambda k: X(t, k)), got["cached_q_values"], I.new_list([]))
        E.I.contracts[MC + "mcts_iteration"] = it
        args = [False, n, ft, sas, sr, info, opp, C, None]
        for o in E.no_raise(E.call(MC + "run_mcts", args, dict(return_states=keep))):
            V, cnt, _, paths, _ = o.val
            s = E.int("s")
            rs = and_(0 <= s, s < N)
            E.prove("one value and one count per state", o.st, and_(V.ndim == 1, cnt.ndim == 1, eq(V.shape[0], N), eq(cnt.shape[0], N)))
            E.prove("as many iterations as asked for", o.st, eq(o.st.heap[g.cid].fields["calls"], n))
            E.prove("the value of a state is the sum of the rewards of the iterations, once per visit", o.st, eq(E.rd(V, o.st, s), value(n, s)), rs)
            E.prove("the count of a state is its number of visits", o.st, eq(E.rd(cnt, o.st, s), visits(n, s)), rs)
            if keep:
                t, k = E.int("t"), E.int("k")
                E.I.st = o.st
                E.prove("one path per iteration", o.st, eq(E.I.length(paths), n))
                p = E.at(paths, t, o.st)
                E.I.st = o.st
                E.prove("the paths are those of the iterations", o.st, and_(eq(E.I.length(p), Ln(t)), implies(and_(0 <= k, k < Ln(t)), eq(E.at(p, k, o.st), X(t, k)))), and_(0 <= t, t < n))
            for nm_, a in (("transition function", sas), ("features", ft)):
                E.prove_same(nm_ + " unchanged", a, E.st, a, o.st)
    return run



def fit():
    """values of the actions at the root, everything else unknown"""
    E = Env("MCTS._fit")
    outs, N, A, F, sf, feat, sas = mdp(E)
    o = E.no_raise(outs, " (MDP)")[0]
    st, m = E.slim(o.st), o.val
    n, C, pos, mv = E.int("n_iter"), E.real("C"), E.int("position"), E.int("moves")
    st.pc.append(and_(0 <= pos, pos < N, n >= 1))
    sas1, ft = E.get(m, "sas", st), E.get(m, "features", st)
    P = lambda s, a, t: E.rd(sas1, st, s, a, t)
    rf = E.fn("rf", 1)
    E.st = st
    R = E.arr("rf", (F,), fn=rf)
    cons = E.list([E.int("c0")])
    idx = E.int("marker")
    ag = E.obj("maMDP.mdp.MDP", name="me", position=pos, n_moves=mv, consumes=cons, agent_feature_idx=idx)
    al = E.no_raise(E.call("maMDP.algorithms.mcts.MCTS", [], dict(n_iter=n, C=C), st=st), " (constructor)")[0]
    st = al.st
    E.I.st = st
    c = st.heap[al.val.cid]
    st.heap[al.val.cid] = ObjCell(c.cls, dict(c.fields, _agent=ag))
    V, cnt = E.fn("V", 1), E.fn("cnt", 1)
    q = z3.Int("v_s")
    E.forall([q], cnt(q) >= 0)
    E.I.contracts["maMDP.algorithms.successor_representation.get_sa_sr"] = lambda I, fv, args, kw: I.new_arr((N, A, N), "float", E.fn("sr", 3))
    ran = []

    def run(I, fv, args, kw):
        names = ["interactive", "n_iter", "features", "sas", "sr", "agent_info", "opponent_info", "C", "n_moves"]
        got = dict(zip(names, args))
        got.update(kw)
        i = [E.int("q%d" % j) for j in range(3)]
        r = [and_(0 <= a, a < b) for a, b in zip(i, (N, A, N))]
        I.oblige("as many iterations as configured, not interactive, configured exploration", and_(eq(got["n_iter"], n), eq(got["interactive"], False), eq(got["C"], C)))
        I.oblige("the search uses the world's transitions", implies(and_(*r), eq(E.rd(got["sas"], I.st, *i), P(*i))))
        I.oblige("the search uses the world's features", implies(and_(0 <= i[1], i[1] < F, r[0]), eq(E.rd(got["features"], I.st, i[1], i[0]), E.rd(ft, st, i[1], i[0]))))
        items = I.st.heap[got["agent_info"].cid].items
        I.oblige("the only agent is the planning one", len(items) == 1 and len(I.st.heap[got["opponent_info"].cid].items) == 0)
        tp = items[0][1]
        I.oblige("it is described by its position, moves, consumption and marker", and_(eq(tp[0], pos), eq(tp[1], mv), E.equal(tp[2], I.st, cons, st), eq(tp[4], idx)))
        I.oblige("and the reward function to fit", implies(and_(0 <= i[0], i[0] < F), eq(E.rd(tp[3], I.st, i[0]), rf(i[0]))))
        ran.append(1)
        return (I.new_arr((N,), "float", V), I.new_arr((N,), "float", cnt), None, I.new_list([]), I.new_list([]))
    E.I.contracts[MC + "run_mcts"] = run
    # contract of get_MCTS_action_values (C14), for a world where an action leads to one state
    k_, L = E.fn("actions", 1, "int"), E.int("L")
    tf, slot = E.fn("leads", 1, "int"), E.fn("slot", 1, "int")
    st.pc.append(L >= 0)
    a, b = z3.Int("a_a"), z3.Int("a_b")
    E.forall([a], implies(and_(0 <= a, a < L), and_(0 <= k_(a), k_(a) < A, 0 <= tf(a), tf(a) < N, eq(slot(k_(a)), a))))

    def av(I, fv, args, kw):
        got = dict(zip(["node", "sas", "V", "N"], args))
        got.update(kw)
        i = [E.int("q%d" % j) for j in range(3)]
        r = [and_(0 <= a, a < b) for a, b in zip(i, (N, A, N))]
        I.oblige("the values are those of the actions at the position", and_(eq(got["node"], pos), implies(and_(*r), eq(E.rd(got["sas"], I.st, *i), P(*i)))))
        I.oblige("and of this search", implies(r[0], and_(eq(E.rd(got["V"], I.st, i[0]), V(i[0])), eq(E.rd(got["N"], I.st, i[0]), cnt(i[0])))))
        return (I.new_arr((L,), "int", k_), I.new_arr((L,), "float", lambda j: T.truediv_fin(V(tf(j)), T.add(1, cnt(tf(j))))), I.new_arr((L,), "int", tf))
    E.I.contracts[MC + "get_MCTS_action_values"] = av
    for o in E.no_raise(E.method(al.val, "_fit", [m, R, pos], st=st), " (fit)"):
        vals, qv = o.val
        s, x, j = E.int("s"), E.int("x"), E.int("j")
        rs, rx = and_(0 <= s, s < N), and_(0 <= x, x < A)
        E.prove("one value per state", o.st, and_(vals.ndim == 1, eq(vals.shape[0], N), implies(rs, eq(E.rd(vals, o.st, s), V(s)))))
        E.prove("one action value per state and action", o.st, and_(qv.ndim == 2, eq(qv.shape[0], N), eq(qv.shape[1], A)))
        E.prove("unknown everywhere but at the position", o.st, T.isnan(E.rd(qv, o.st, s, x)), rs, rx, ne(s, pos))
        E.prove("at the position: the action values of the search", o.st, eq(E.rd(qv, o.st, pos, k_(j)), T.truediv_fin(V(tf(j)), T.add(1, cnt(tf(j))))), and_(0 <= j, j < L))
        bb = z3.Int("f_b")
        has = E.ctx.reduction("any", [x], [bb], T.zb(eq(k_(bb), x)), [L])(x)
        E.prove("unknown for actions that are not available", o.st, T.isnan(E.rd(qv, o.st, pos, x)), rx, not_(has))
        E.prove("the search was run", o.st, bool(ran))
        E.prove_same("the MDP is not changed", m, st, m, o.st)
        E.prove_same("the agent is not changed", ag, st, ag, o.st)
        E.prove_same("the reward function is not changed", R, st, R, o.st)


def alone():
    """what the search knows about a single agent"""
    E = Env("extract_all_agent_info (one agent)")
    F, p0, mv, mark, L = E.int("F"), E.int("p0"), E.int("moves"), E.int("marker"), E.int("L")
    E.assume(F >= 1, 0 <= mark, mark < F, L >= 0)
    rf, cf = E.fn("rf", 1), E.fn("cons", 1, "int")
    j = z3.Int("x_j")
    E.forall([j], and_(0 <= cf(j), cf(j) < F))
    R = E.arr("rf", (F,), fn=rf)
    cons = E.list(None, L, lambda k: cf(k))
    info = E.dict([("me", (p0, mv, cons, R, mark))])
    for o in E.no_raise(E.call(MC + "extract_all_agent_info", [info, E.dict([])])):
        node, nm, cfe, rfs, av, ca, idx = o.val
        f = E.int("f")
        rng = and_(0 <= f, f < F)
        E.I.st = o.st
        E.prove("its position", o.st, and_(eq(node.shape[0], 1), eq(E.rd(node, o.st, 0), p0)))
        E.prove("its number of moves", o.st, and_(eq(E.I.length(nm), 1), eq(E.I.iter_at(nm, 0), mv)))
        bb = z3.Int("f_b")
        has = E.ctx.reduction("any", [f], [bb], T.zb(eq(cf(bb), f)), [L])(f)
        E.prove("the features it consumes", o.st, and_(eq(cfe.shape[0], 1), eq(cfe.shape[1], F), iff(E.rd(cfe, o.st, 0, f), has)), rng)
        E.prove("its reward function", o.st, and_(eq(rfs.shape[0], 1), eq(rfs.shape[1], F), eq(E.rd(rfs, o.st, 0, f), rf(f))), rng)
        E.I.st = o.st
        E.prove("its marker", o.st, and_(eq(E.I.length(idx), 1), eq(E.I.iter_at(idx, 0), mark)))
        E.prove_same("the given information is not changed", info, E.st, info, o.st)


SECTIONS = [
    ("mcts_iteration (alone)", iteration("one")),
    ("run_mcts", search(False)),
    ("run_mcts (recording the paths)", search(True)),
    ("MCTS._fit", fit),
    ("extract_all_agent_info (one agent)", alone),
]
