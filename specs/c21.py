"""C21: planning with other agents: catching and being caught, opponents' moves, turns."""
from .base import *

MC = "maMDP.algorithms.mcts."


def overlap(M=None):
    """agents in the same state: who is eaten, and what it is worth"""
    def run():
        E = Env("check_agent_overlap" + (f" ({M} agents)" if M else ""))
        E.ctx.tail_sums = True
        m = E.int("M") if M is None else M
        if M is None:
            E.assume(m >= 1)
        eats, node, act, val, cost = E.fn("eats", 2, "bool"), E.fn("node", 1, "int"), E.fn("active", 1, "bool"), E.fn("value", 1), E.real("cost")
        E.assume(not_(eats(0, 0)))
        ca, nd, ac = E.arr("eats", (m, m), "bool", fn=eats), E.arr("node", (m,), "int", fn=node), E.arr("active", (m,), "bool", fn=act)
        va = E.arr("value", (m,), fn=val) if M is None else tuple(val(i) for i in range(M))
        together = lambda i, j: and_(eats(i, j), eq(node(i), node(j)))
        j = E.int("j")
        rj = and_(0 <= j, j < m)
        if M is None:
            b = z3.Int("eb")
            eaten = lambda j: E.ctx.reduction("any", [j], [b], T.zb(together(b, j)), [m])(j)
            gain = E.psum(lambda j: ite(together(0, j), val(j), T.Fraction(0)), m)
        else:
            eaten = lambda j: or_(*[together(i, j) for i in range(M)])
            gain = T.Fraction(0)
            for i in range(M):
                gain = T.add(gain, ite(together(0, i), val(i), T.Fraction(0)))
        caught = eaten(T.zi(0))
        for o in E.no_raise(E.call(MC + "check_agent_overlap", [ca, nd, cost, ac, va])):
            rew, act1, ct = o.val
            E.prove("caught exactly when an agent that eats the planning one is in its state", o.st, iff(ct, caught))
            E.prove("worth the agents eaten", o.st, eq(rew, gain), not_(caught))
            E.prove("worth the agents eaten and the cost of being caught", o.st, eq(rew, T.add(gain, cost)), caught)
            E.prove("an agent is active afterwards exactly if it was and was not eaten", o.st, iff(E.rd(act1, o.st, j), and_(act(j), not_(eaten(j)))), rj, not_(caught))
            E.prove_same("positions unchanged", nd, E.st, nd, o.st)
            E.prove_same("who eats whom unchanged", ca, E.st, ca, o.st)
    return run



def info(M):
    """what the search knows about the agents, the planning one first"""
    def run():
        E = Env(f"extract_all_agent_info ({M} agents)")
        F = E.int("F")
        E.assume(F >= 1)
        pos, mv, mark = [E.int(f"pos{i}") for i in range(M)], [E.int(f"moves{i}") for i in range(M)], [E.int(f"marker{i}") for i in range(M)]
        for i in range(M):
            E.assume(0 <= mark[i], mark[i] < F)
            for j in range(i):
                E.assume(ne(mark[i], mark[j]))
        rf, cf, L, RF, CL = [], [], [], [], []
        for i in range(M):
            rf.append(E.fn(f"rf{i}", 1))
            cf.append(E.fn(f"cons{i}", 1, "int"))
            L.append(E.int(f"L{i}"))
            E.assume(L[i] >= 0)
            j = z3.Int("x_j")
            E.forall([j], and_(0 <= cf[i](j), cf[i](j) < F))
            RF.append(E.arr(f"rf{i}", (F,), fn=rf[i]))
            CL.append(E.list(None, L[i], lambda k, i=i: cf[i](k)))
        it = [(f"agent{i}", (pos[i], mv[i], CL[i], RF[i], mark[i])) for i in range(M)]
        d0, d1 = E.dict(it[:1]), E.dict(it[1:])
        has = lambda i, f: E.ctx.reduction("any", [f], [z3.Int("f_b")], T.zb(eq(cf[i](z3.Int("f_b")), f)), [L[i]])(f)
        f = E.int("f")
        rng = and_(0 <= f, f < F)
        for o in E.no_raise(E.call(MC + "extract_all_agent_info", [d0, d1])):
            node, nm, cfe, rfs, av, ca, idx = o.val
            E.I.st = o.st
            E.prove("one entry per agent", o.st, and_(eq(node.shape[0], M), eq(E.I.length(nm), M), eq(cfe.shape[0], M), eq(cfe.shape[1], F), eq(rfs.shape[0], M), eq(rfs.shape[1], F), eq(E.I.length(av), M), eq(ca.shape[0], M), eq(ca.shape[1], M), eq(E.I.length(idx), M)))
            for i in range(M):
                E.I.st = o.st
                E.prove(f"agent {i}: its position, moves and marker", o.st, and_(eq(E.rd(node, o.st, i), pos[i]), eq(E.at(nm, i, o.st), mv[i]), eq(E.at(idx, i, o.st), mark[i])))
                E.prove(f"agent {i}: its reward function", o.st, eq(E.rd(rfs, o.st, i, f), rf[i](f)), rng)
                E.prove(f"agent {i}: the features it consumes", o.st, iff(E.rd(cfe, o.st, i, f), has(i, f)), rng)
                if i:
                    E.prove(f"agent {i}: what it is worth to the planning agent", o.st, eq(E.at(av, i, o.st), rf[0](mark[i])))
                for j in range(M):
                    E.prove(f"agent {i} eats agent {j} exactly if it consumes its marker", o.st, iff(E.rd(ca, o.st, i, j), has(i, mark[j])))
            E.prove_same("the given information is not changed", d0, E.st, d0, o.st)
            E.prove_same("the given information on the others is not changed", d1, E.st, d1, o.st)
    run.bounded = f"{M} agents (any number of features)"
    return run



def opponent(how, given):
    """where another agent moves to in the search"""
    def run():
        E = Env(f"get_opponent_next_state ({how}{', values given' if given else ''})")
        N, A, F = E.int("N"), E.int("A"), E.int("F")
        E.assume(N >= 1, A >= 1, F >= 1)
        P = E.fn("sas", 3)
        s_, a_, t_ = [z3.Int("w_" + x) for x in "sat"]
        E.forall([s_, a_, t_], and_(P(s_, a_, t_) >= 0, P(s_, a_, t_) <= 1))
        s = E.int("s")
        E.assume(0 <= s, s < N)
        w, X0 = E.fn("rf", 1), E.fn("features", 2)
        sas, ft, rf = E.arr("sas", (N, A, N), fn=P), E.arr("features", (F, N), fn=X0), E.arr("rf", (F,), fn=w)
        # the candidates (contract of get_actions_states, C14)
        m, sf, af = E.int("m"), E.fn("succ", 1, "int"), E.fn("act", 1, "int")
        E.assume(m >= 1)
        k_ = z3.Int("w_k")
        E.forall([k_], implies(and_(0 <= k_, k_ < m), and_(0 <= sf(k_), sf(k_) < N, 0 <= af(k_), af(k_) < A, P(s, af(k_), sf(k_)) > 0)))
        ST = E.arr("states", (m,), "int", fn=sf)
        # action values: minus infinity exactly for unavailable actions
        v, nin = E.fn("q", 2), E.fn("q_ninf", 2, "bool")
        b = z3.Int("t_b")
        can = E.ctx.reduction("any", [s_, a_], [b], T.zb(P(s_, a_, b) > 0), [N])
        E.forall([s_, a_], implies(and_(0 <= s_, s_ < N, 0 <= a_, a_ < A), iff(not_(nin(s_, a_)), can(s_, a_))))
        a0, t0 = E.int("a0"), E.int("t0")     # the first candidate
        E.assume(eq(a0, af(0)), eq(t0, sf(0)), 0 <= a0, a0 < A, 0 <= t0, t0 < N, P(s, a0, t0) > 0, not_(nin(s, a0)))
        E.I.st = E.st
        mk = lambda I: I.new_arr((N, A), "float", lambda x, y: T.XF(v(x, y), False, nin(x, y), False))
        q = mk(E.I) if given else None

        def vi(I, fv, args, kw):
            got = dict(zip(["reward_function", "features", "max_iter", "discount", "sas", "tol"], args))
            got.update(kw)
            i = [E.int("q%d" % j) for j in range(3)]
            r = [and_(0 <= a, a < b) for a, b in zip(i, (N, A, N))]
            I.oblige("the other agent's values are those of its own reward function", implies(and_(0 <= i[0], i[0] < F), eq(E.rd(got["reward_function"], I.st, i[0]), w(i[0]))))
            I.oblige("and of the features as they are", implies(and_(0 <= i[1], i[1] < F, r[0]), eq(E.rd(got["features"], I.st, i[1], i[0]), X0(i[1], i[0]))))
            I.oblige("and of the world's transitions", implies(and_(*r), eq(E.rd(got["sas"], I.st, *i), P(*i))))
            I.oblige("with the given settings", and_(eq(got["max_iter"], 500), eq(got["discount"], T.norm(0.9)), eq(got["tol"], T.norm(1e-4))))
            return (I.new_arr((N,), "float", E.fn("v", 1)), mk(I))
        E.I.contracts["maMDP.algorithms.dynamic_programming.solve_value_iteration"] = vi
        E.I.contracts[MC + "solve_value_iteration"] = vi

        def sm(I, fv, args, kw):
            got = dict(zip(["qs", "temperature"], args))
            got.update(kw)
            a = E.int("qa")
            x = E.rd(got["qs"], I.st, a)
            I.oblige("the softmax is that of the values in the agent's state", implies(and_(0 <= a, a < A), and_(iff(x.ninf if isinstance(x, T.XF) else False, nin(s, a)), or_(nin(s, a), eq(x, v(s, a))))))
            I.oblige("at the given temperature", eq(got["temperature"], 1))
            p = E.fn("soft", 1)
            y = z3.Int("w_y")
            E.forall([y], and_(p(y) >= 0, implies(and_(0 <= y, y < A), iff(p(y) > 0, not_(nin(s, y))))))
            E.ctx.assume_forall([], eq(E.total(lambda x: p(x), A), 1), "softmax")
            return I.new_arr((A,), "float", p)
        E.I.contracts["maMDP.algorithms.action_selection.softmax"] = sm
        E.I.contracts[MC + "softmax"] = sm
        args = ["random" if how == "random" else "solve", ST, s, rf, ft, sas, sas]
        kw = dict(action_selection="softmax" if how == "softmax" else "max", softmax_temperature=1)
        if given:
            kw["q_values"] = q
        outs = E.call(MC + "get_opponent_next_state", args, kw, st=E.st)
        for o in E.no_raise(outs):
            t, q1 = o.val
            a, pa, ba, pt, bt = E.int("a"), z3.Int("p_a"), z3.Int("b_a"), z3.Int("p_t"), z3.Int("b_t")
            E.prove("a state", o.st, and_(le(0, t), lt(t, N)))
            E.prove("that some action leads to", o.st, E.ctx.reduction("any", [pt], [ba], T.zb(P(s, ba, pt) > 0), [A])(t))
            better = E.ctx.reduction("any", [pa], [ba], T.zb(and_(not_(nin(s, ba)), v(s, pa) < v(s, ba))), [A])
            likelier = E.ctx.reduction("any", [pa, pt], [bt], T.zb(P(s, pa, pt) < P(s, pa, bt)), [N])
            if how != "random":
                good = (lambda x: and_(not_(nin(s, x)), not_(better(x)))) if how == "max" else (lambda x: not_(nin(s, x)))
                E.prove("the likeliest state after " + ("a best action" if how == "max" else "an available action"), o.st, E.ctx.reduction("any", [pt], [ba], T.zb(and_(good(ba), not_(likelier(ba, pt)))), [A])(t))
            for nm, x in (("transition function", sas), ("features", ft), ("reward function", rf), ("candidates", ST)) + ((("action values", q),) if given else ()):
                E.prove_same(nm + " unchanged", x, E.st, x, o.st)
    return run



def iteration(plan):
    """one iteration that simulates the other agents as well; plan: moves per agent and turn"""
    M = len(plan)
    order = [k for t in range(len(plan[0])) for k in range(M) for _ in range(plan[k][t])]

    def run():
        E = Env(f"mcts_iteration (moves {plan})")
        N, A, F = E.int("N"), E.int("A"), E.int("F")
        E.assume(N >= 1, A >= 1, F >= 1)
        P = E.fn("sas", 3)
        F0, w, cons = E.fn("features", 2), E.fn("rf", 2), E.fn("consumes", 2, "bool")
        mark, p0 = [E.int(f"marker{i}") for i in range(M)], [E.int(f"p{i}") for i in range(M)]
        for i in range(M):
            E.assume(0 <= mark[i], mark[i] < F, 0 <= p0[i], p0[i] < N)
            for j in range(i):
                E.assume(ne(mark[i], mark[j]))
        pick = lambda xs: lambda i: xs[i] if isinstance(i, int) else (ite(eq(i, 0), xs[0], pick(xs[1:])(T.sub(i, 1))) if len(xs) > 1 else xs[0])
        V, cnt = E.arr("V", (N,)), E.arr("cnt", (N,))
        sas, ft = E.arr("sas", (N, A, N), fn=P), E.arr("features", (F, N), fn=F0)
        node = E.arr("node", (M,), "int", fn=pick(p0))
        cf, rf = E.arr("consumes", (M, F), "bool", fn=cons), E.arr("rf", (M, F), fn=w)
        eats, val = E.fn("eats", 2, "bool"), [E.real(f"value{i}") for i in range(M)]
        ca = E.arr("eats", (M, M), "bool", fn=eats)
        C, cost = E.real("C"), E.real("cost")
        g = E.obj("maMDP.mdp.MDP", calls=0, chosen=0)
        K = len(order)
        # step k: where the mover would go, who gets eaten before it, and what that is worth
        D, EAT, G, EX = [E.int(f"D{k}") for k in range(K)], [[E.ctx.fresh(f"eat{k}_{j}", z3.BoolSort()) for j in range(M)] for k in range(K)], [E.real(f"G{k}") for k in range(K)], [E.ctx.fresh(f"EX{k}", z3.BoolSort()) for k in range(K)]
        act = lambda k, j: and_(*[not_(EAT[i][j]) for i in range(k)])

        def pos(k, j):
            x = p0[j]
            for i in range(k):
                if order[i] == j:
                    x = D[i] if j == 0 else ite(act(i + 1, j), D[i], x)
            return x

        def feat(k, f, s):
            x = F0(f, s)
            for i in range(k + 1):
                a = order[i]
                x = ite(eq(f, mark[a]), ite(eq(s, pos(i, a)), 1, 0), x)
                if i < k:
                    x = ite(and_(act(i + 1, a), cons(a, f), eq(s, pos(i + 1, a))), 0, x)
            return x

        def overlap(I, fv, args, kw):
            got = dict(zip(["consumes_agents", "current_node", "caught_cost", "agents_active", "agent_values"], args))
            got.update(kw)
            c = I.st.heap[g.cid]
            k = c.fields["calls"]
            if not isinstance(k, int) or k >= K:
                I.oblige("no more moves than planned", False)
                raise Unsupported("more moves than planned")
            for j in range(M):
                I.oblige(f"before move {k}: agents are where their moves have taken them", eq(E.rd(got["current_node"], I.st, j), pos(k, j)))
                I.oblige(f"before move {k}: eaten agents are inactive", iff(T.zb(E.rd(got["agents_active"], I.st, j)), act(k, j)))
                I.oblige(f"before move {k}: the agents' values and the cost of being caught", and_(eq(got["agent_values"][j], val[j]), eq(got["caught_cost"], cost)))
            I.oblige(f"before move {k}: who eats whom", E.equal(got["consumes_agents"], I.st, ca, E.st))
            I.st.heap[g.cid] = ObjCell(c.cls, dict(c.fields, calls=k + 1))
            new = I.new_arr((M,), "bool", pick([act(k + 1, j) for j in range(M)]))
            return (G[k], new, EAT[k][0])
        E.I.contracts[MC + "check_agent_overlap"] = overlap
        Sf, Af, Mn = E.fn("succ", 2, "int"), E.fn("act", 2, "int"), E.fn("nsucc", 1, "int")
        s, j = z3.Int("c_s"), z3.Int("c_j")
        E.forall([s], implies(and_(0 <= s, s < N), Mn(s) >= 1))

        def gas(I, fv, args, kw):
            a, x = (args + [kw.get("current_node")])[:2] if len(args) < 2 else args[:2]
            i = [E.int("q%d" % i) for i in range(3)]
            I.oblige("the candidates are taken from the world's transitions", implies(and_(0 <= i[0], i[0] < N, 0 <= i[1], i[1] < A, 0 <= i[2], i[2] < N), eq(E.rd(a, I.st, *i), P(*i))))
            I.oblige("the current node is a state", and_(le(0, x), lt(x, N)))
            m = Mn(x)
            return (I.new_arr((m, 2), "int", lambda k, c: ite(eq(c, 0), Af(x, k), Sf(x, k))), I.new_arr((m,), "int", lambda k: Af(x, k)), I.new_arr((m,), "int", lambda k: Sf(x, k)))
        E.I.contracts[MC + "get_actions_states"] = gas

        def fresh_dest(I, k, x, states):
            i = E.int("i_c")
            I.oblige(f"move {k} starts where the mover is, among the successors of that state", and_(eq(x, pos(k, order[k])), eq(states.shape[0], Mn(x)), implies(and_(0 <= i, i < Mn(x)), eq(E.rd(states, I.st, i), Sf(x, i)))))
            I.assume(and_(le(0, D[k]), lt(D[k], N)), "next state")

        def nxt(I, fv, args, kw):
            got = dict(zip(["expand", "V", "N", "states", "C", "current_node"], args))
            got.update(kw)
            c = I.st.heap[g.cid]
            k = c.fields["calls"] - 1
            I.oblige("the planning agent chooses exactly when it is its move", k >= 0 and order[k] == 0)
            fresh_dest(I, k, got["current_node"], got["states"])
            prev = [i for i in range(k) if order[i] == 0]
            I.oblige("selection starts at the root and stops for good once a node was expanded", iff(T.zb(got["expand"]), EX[prev[-1]] if prev else True))
            I.oblige("the choice uses the current values and visits", and_(eq(got["C"], C), E.equal(got["V"], I.st, V, E.st), E.equal(got["N"], I.st, cnt, E.st)))
            return (D[k], EX[k])
        E.I.contracts[MC + "MCTS_next_node"] = nxt

        def opp(I, fv, args, kw):
            names = ["opponent_policy_method", "states", "current_state", "reward_function", "features", "sas", "sr", "algorithm", "action_selection", "softmax_temperature", "max_iter", "discount", "tol", "q_values"]
            got = dict(zip(names, args))
            got.update(kw)
            k = I.st.heap[g.cid].fields["calls"] - 1
            a = order[k]
            I.oblige("another agent chooses exactly when it is its move", k >= 0 and a > 0)
            fresh_dest(I, k, got["current_state"], got["states"])
            f, s = E.int("f_o"), E.int("s_o")
            i = [E.int("q%d" % i) for i in range(3)]
            I.oblige(f"move {k}: by its own reward function", implies(and_(0 <= f, f < F), eq(E.rd(got["reward_function"], I.st, f), w(a, f))))
            I.oblige(f"move {k}: and the features left by the moves so far", implies(and_(0 <= f, f < F, 0 <= s, s < N), eq(E.rd(got["features"], I.st, f, s), feat(k, f, s))))
            I.oblige(f"move {k}: and the world's transitions", implies(and_(0 <= i[0], i[0] < N, 0 <= i[1], i[1] < A, 0 <= i[2], i[2] < N), eq(E.rd(got["sas"], I.st, *i), P(*i))))
            I.oblige(f"move {k}: in the configured way", and_(got["opponent_policy_method"] == "solve", got["algorithm"] == "value_iteration", got["action_selection"] == "max", got.get("q_values") is None))
            return (D[k], I.new_arr((N, A), "float", E.fn("oq", 2)))
        E.I.contracts[MC + "get_opponent_next_state"] = opp
        args = [True, V, cnt, sas, sas, ft, node, E.list([E.dict([]) for _ in range(M)]), E.list([E.list(list(p)) for p in plan]), ca, cf, tuple(val), rf, E.list(mark), C, cost]
        for o in E.no_raise(E.call(MC + "mcts_iteration", args, dict(return_other_agent_states=True))):
            rew, vis, _, oth = o.val
            E.I.st = o.st
            calls = o.st.heap[g.cid].fields["calls"]       # moves begun
            for k in range(K + 1):
                # caught before move k, or (k = K) never
                here = and_(*[not_(EAT[i][0]) for i in range(k)], *([EAT[k][0]] if k < K else []))
                what = f"caught before move {k}: " if k < K else "not caught: "
                E.prove(what + "as many moves as planned", o.st, eq(calls, min(k + 1, K)), here)
                mine = [i for i in range(k) if order[i] == 0]
                E.prove(what + "one node per move of the planning agent", o.st, eq(E.I.length(vis), len(mine)), here)
                for x, i in enumerate(mine):
                    E.prove(what + "the path is the sequence of nodes chosen", o.st, eq(E.at(vis, x, o.st), D[i]), here)
                tot = T.Fraction(0)
                for i in range(min(k + 1, K)):
                    tot = T.add(tot, G[i])
                for i in mine:
                    tot = T.add(tot, E.psum(lambda f: T.mul(w(0, f), feat(i, f, D[i])), F))
                E.prove(what + "the reward is that of the nodes entered plus that of catching and being caught", o.st, eq(rew, tot), here)
                for j in range(1, M):
                    l = E.at(oth, j - 1, o.st)
                    E.I.st = o.st
                    ln = 0
                    for i in range(k):
                        if order[i] == j:
                            E.prove(what + f"the moves of agent {j} are recorded", o.st, eq(E.at(l, ln, o.st), D[i]), here, act(i + 1, j))
                            ln = T.add(ln, ite(act(i + 1, j), 1, 0))
                    E.prove(what + f"agent {j} moves as planned while it is active", o.st, eq(E.I.length(l), ln), here)
            for nm, a in (("values", V), ("visit counts", cnt), ("transition function", sas), ("features", ft), ("starting nodes", node), ("reward functions", rf), ("who eats whom", ca)):
                E.prove_same(nm + " unchanged", a, E.st, a, o.st)
    run.bounded = f"moves {plan} per agent and turn (any world, features, positions)"
    return run



def describe(M, me):
    """which agents the search is told about"""
    def run():
        E = Env(f"MCTS.create_agent_info (agent {me} of {M})")
        E.I.st = E.st
        F = E.int("F")
        E.assume(F >= 1)
        R = E.arr("rf", (F,))
        ags, pos, mv, mk, CL, RF = [], [], [], [], [], []
        for i in range(M):
            pos.append(E.int(f"pos{i}"))
            mv.append(E.int(f"moves{i}"))
            mk.append(E.int(f"marker{i}"))
            CL.append(E.list([E.int(f"c{i}")]))
            RF.append(E.arr(f"rf{i}", (F,)))
            ags.append(E.obj("maMDP.mdp.MDP", name=f"agent{i}", position=pos[i], n_moves=mv[i], consumes=CL[i], reward_function=RF[i], agent_feature_idx=mk[i]))
        env = E.obj("maMDP.mdp.MDP", agents=E.dict([(f"agent{i}", ags[i]) for i in range(M)]))
        al = E.no_raise(E.call(MC + "MCTS", [], dict(interactive=True), st=E.st), " (constructor)")[0]
        st = al.st
        c = st.heap[al.val.cid]
        st.heap[al.val.cid] = ObjCell(c.cls, dict(c.fields, _agent=ags[me], _environment=env))
        for o in E.no_raise(E.method(al.val, "create_agent_info", [R, True, env], st=st)):
            a, b = o.val
            ia, ib = o.st.heap[a.cid].items, o.st.heap[b.cid].items
            rest = [i for i in range(M) if i != me]
            E.prove("the planning agent alone is the primary one", o.st, [k for k, _ in ia] == [f"agent{me}"])
            E.prove("all the others are its opponents, in the environment's order", o.st, [k for k, _ in ib] == [f"agent{i}" for i in rest])
            for i, tp in [(me, ia[0][1])] + [(i, ib[x][1]) for x, i in enumerate(rest) if x < len(ib)]:
                E.prove(f"agent {i} is described by its position, moves, consumption and marker", o.st, and_(eq(tp[0], pos[i]), eq(tp[1], mv[i]), E.equal(tp[2], o.st, CL[i], st), eq(tp[4], mk[i])))
                E.prove(f"agent {i}: its reward function" + (" is the one being fit" if i == me else ""), o.st, E.equal(tp[3], o.st, R if i == me else RF[i], st))
            E.prove_same("the environment is not changed", env, st, env, o.st)
    run.bounded = f"{M} agents"
    return run


SECTIONS = [
    ("check_agent_overlap", overlap()),
    ("extract_all_agent_info (2 agents)", info(2)),
    ("extract_all_agent_info (3 agents)", info(3)),
    ("get_opponent_next_state (random)", opponent("random", False)),
    ("get_opponent_next_state (max)", opponent("max", False)),
    ("get_opponent_next_state (max, values given)", opponent("max", True)),
    ("get_opponent_next_state (softmax)", opponent("softmax", False)),
    ("get_opponent_next_state (softmax, values given)", opponent("softmax", True)),
    ("MCTS.create_agent_info (agent 0 of 2)", describe(2, 0)),
    ("MCTS.create_agent_info (agent 1 of 3)", describe(3, 1)),
    ("mcts_iteration (moves 1; 1)", iteration([[1], [1]])),
    ("mcts_iteration (moves 2; 1)", iteration([[2], [1]])),
    ("mcts_iteration (moves 1, 1; 1, 1)", iteration([[1, 1], [1, 1]])),
    ("mcts_iteration (moves 1, 1; 2, 0)", iteration([[1, 1], [2, 0]])),
    ("mcts_iteration (moves 1, 1; 0, 1)", iteration([[1, 1], [0, 1]])),
    ("mcts_iteration (moves 0, 1; 1, 1)", iteration([[0, 1], [1, 1]])),
    ("mcts_iteration (moves 2; 1; 1)", iteration([[2], [1], [1]])),
    ("mcts_iteration (moves 1, 1; 1, 0; 1, 1)", iteration([[1, 1], [1, 0], [1, 1]])),
]
