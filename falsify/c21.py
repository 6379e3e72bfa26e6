from falsify.envsim import gen_env
from falsify.util import *


def gen(rng, i):
    k = rng.choice(["overlap", "next", "search", "search", "info"])
    if k == "overlap":
        m = rng.randint(1, 5)
        c = dict(eats=[[int(i != j and rng.random() < 0.4) for j in range(m)] for i in range(m)], node=[rng.randrange(rng.choice([2, 3, 6])) for _ in range(m)],
                 active=[int(rng.random() < 0.8) for _ in range(m)], value=[rng.choice([0, 1, -2, 0.5, 3]) for _ in range(m)], cost=rng.choice([-50, 0, 7]))
    elif k == "next":
        S, A = rng.randint(1, 6), rng.randint(1, 4)
        c = dict(S=S, A=A, sas=rand_sas(rng, S, A, "det").tolist(), state=rng.randrange(S), how=rng.choice(["random", "max", "softmax", "cold"]),
                 q=[[rng.choice([0, 1, 1, -1, 0.5, 3, None]) for _ in range(A)] for _ in range(S)], given=rng.random() < 0.7, X=[[rng.choice([0, 0, 1, 2]) for _ in range(S)] for _ in range(2)], rf=[rng.choice([1, -1, 0, 0.5]) for _ in range(2)])
    else:
        c, n, F, M = gen_env(rng, max_agents=3, stoch=False)
        if k == "search":
            T_ = rng.randint(1, 3)
            c.update(n_iter=rng.choice([1, 4, 12]), C=rng.choice([0.5, 2.0]), cost=rng.choice([-50, -3, 0]), method=rng.choice(["random", "random", "solve"]),
                     plan=rng.choice([None, [[rng.randint(0, 2) for _ in range(T_)] for _ in range(M)]]))
    c["check"] = k
    return c


def overlap(c):
    f = opt("maMDP.algorithms.mcts", "check_agent_overlap")
    e, nd, act = np.array(c["eats"], dtype=bool), np.array(c["node"]), np.array(c["active"], dtype=bool)
    keep = e.copy(), nd.copy()
    rew, act1, ct = f(e, nd, float(c["cost"]), act.copy(), tuple(float(v) for v in c["value"]))
    m = len(nd)
    eaten = [any(e[i, j] and nd[i] == nd[j] for i in range(m)) for j in range(m)]
    gain = sum(c["value"][j] for j in range(m) if e[0, j] and nd[0] == nd[j])
    req(bool(ct) == eaten[0], "caught {} instead of {}", ct, eaten[0])
    req(close(rew, gain + (c["cost"] if eaten[0] else 0)), "worth {} instead of {}", rew, gain + (c["cost"] if eaten[0] else 0))
    if not eaten[0]:
        want = [bool(a and not x) for a, x in zip(act, eaten)]
        req([bool(x) for x in act1] == want, "active {} instead of {}", act1.tolist(), want)
    req(np.array_equal(e, keep[0]) and np.array_equal(nd, keep[1]), "the arguments were changed")


def vi(P, X, w, disc=0.9):
    r = w @ X
    V = np.zeros(P.shape[0])
    ok = P.any(axis=2)
    for _ in range(400):
        Q = np.where(ok, P @ (r + disc * V), -np.inf)
        V = np.where(ok.any(axis=1), np.where(ok.any(axis=1), Q.max(axis=1), 0), 0)
    return Q


def nextstate(c):
    f = opt("maMDP.algorithms.mcts", "get_opponent_next_state")
    P, s = np.array(c["sas"], dtype=float), c["state"]
    if not P[s].any():
        raise Skip("no action")
    succ = np.array([t for a in range(c["A"]) for t in range(c["S"]) if P[s, a, t]])
    q = np.array([[-np.inf if (v is None or not P[i, a].any()) else v for a, v in enumerate(r)] for i, r in enumerate(c["q"])], dtype=float)
    if np.isneginf(q[s]).all():
        q[s] = np.where(P[s].any(axis=1), 0.0, -np.inf)
    X, w = np.array(c["X"], dtype=float), np.array(c["rf"], dtype=float)
    keep = P.copy(), q.copy(), X.copy(), w.copy()
    how = c["how"]
    kw = dict(action_selection="softmax" if how in ("softmax", "cold") else "max", softmax_temperature=0.0 if how == "cold" else 1.0)
    kw["q_values"] = q if c["given"] else None
    t, q1 = f("random" if how == "random" else "solve", succ, s, w, X, P, P, **kw)
    req(int(t) in [int(x) for x in succ], "next state {} is not among the successors {} of {}", t, succ.tolist(), s)
    if how in ("max", "cold"):
        ref = q if c["given"] else vi(P, X, w)
        tol = 0 if c["given"] else 5e-3
        best = max(ref[s])
        req(any(P[s, a, t] and ref[s, a] >= best - tol for a in range(c["A"])), "next state {} from {} is not one of a best action (values {})", t, s, ref[s].tolist())
    if how == "softmax":
        ref = q if c["given"] else vi(P, X, w)
        req(any(P[s, a, t] and not np.isneginf(ref[s, a]) for a in range(c["A"])), "next state {} from {} with values {}", t, s, ref[s].tolist())
    req(all(np.array_equal(a, b) for a, b in zip((P, q, X, w), keep)), "the arguments were changed")


def info(c):
    f = opt("maMDP.algorithms.mcts", "extract_all_agent_info")
    F, M = len(c["features"]), len(c["agents"])
    for me in range(M):
        order = [me] + [k for k in range(M) if k != me]
        d = {c["agents"][k]["name"]: (c["agents"][k]["pos"], c["agents"][k]["n_moves"], list(c["agents"][k]["consumes"]), np.array(c["agents"][k]["rf"], dtype=float), F + k) for k in order}
        it = list(d.items())
        node, nm, cf, rf, av, ca, idx = f(dict(it[:1]), dict(it[1:]))
        ag = [c["agents"][k] for k in order]
        req([int(x) for x in node] == [a["pos"] for a in ag], "positions {}", node)
        req(list(nm) == [a["n_moves"] for a in ag], "moves {}", nm)
        req(close(rf, [a["rf"] for a in ag]), "reward functions {}", rf.tolist())
        req([[bool(x) for x in r] for r in cf] == [[x in a["consumes"] for x in range(F + M)] for a in ag], "consumed features {}", cf.tolist())
        req([int(x) for x in idx] == [F + k for k in order], "markers {}", idx)
        req([[bool(x) for x in r] for r in ca] == [[F + k in a["consumes"] for k in order] for a in ag], "who eats whom {}", ca.tolist())
        req(close(av[1:], [ag[0]["rf"][F + k] for k in order[1:]]), "values of the other agents {}", av)


def search(c):
    from maMDP.mdp import MDP
    from maMDP.agents import Agent
    from maMDP.environments import Environment
    from maMDP.algorithms.mcts import MCTS
    feats = np.array(c["features"], dtype=float)
    if c["kind"] == "mdp":
        n = c["S"]
        P = np.array(c["sas"], dtype=float).reshape(n, c["A"], n)
        m = MDP(features=feats.copy(), sas=P.copy())
    else:
        n = c["W"] * c["H"]
        P = grid_sas(c["kind"], c["W"], c["H"], c["selft"])
        m = mk_grid(c["kind"], c["W"], c["H"], c["selft"], c["walls"], feats.copy())
        if c["walls"] is not None:
            P = walled(P, c["walls"])
    F, M = len(feats), len(c["agents"])
    reach = set(a["pos"] for a in c["agents"])
    todo = list(reach)
    while todo:
        s = todo.pop()
        for t in np.where(P[s].any(axis=0))[0]:
            if int(t) not in reach:
                reach.add(int(t))
                todo.append(int(t))
    if not all(P[s].any() for s in reach):
        raise Skip("a state without actions can be reached")
    ags, als = {}, []
    for a in c["agents"]:
        g = Agent(a["name"], n_moves=a["n_moves"], algorithm=MCTS, algorithm_kwargs=dict(n_iter=c["n_iter"], C=c["C"], return_states=True, return_other_agent_states=True,
                  interactive=True, caught_cost=c["cost"], opponent_policy_method=c["method"]))
        als.append(g.algorithm)
        ags[g] = (a["pos"], np.array(a["rf"], dtype=float), list(a["consumes"]))
    env = Environment(m, ags)
    X0, P0 = m.features.copy(), m.sas.copy()
    for me in range(M):
        order = [me] + [k for k in range(M) if k != me]
        ag = [c["agents"][k] for k in order]
        al = als[me]
        if c["plan"] is None:
            env.agents[ag[0]["name"]].fit()
            plan = [[a["n_moves"]] for a in ag]
        else:
            plan = c["plan"]
            env.agents[ag[0]["name"]].fit(n_moves=[list(p) for p in plan])
        V, N = np.zeros(n), np.zeros(n)
        req(len(al.visited_states) == c["n_iter"] == len(al.other_agent_visited_states), "{} paths for {} iterations", len(al.visited_states), c["n_iter"])
        for path, others in zip(al.visited_states, al.other_agent_visited_states):
            todo = [[int(v) for v in path]] + [[int(v) for v in o] for o in others]
            full = [list(t) for t in todo]
            X, pos, act, tot, caught = X0.copy(), [a["pos"] for a in ag], [True] * M, 0.0, False
            for turn in range(len(plan[0])):
                for k in range(M):
                    for _ in range(plan[k][turn]):
                        if caught:
                            break
                        X[F + order[k]] = 0
                        X[F + order[k], pos[k]] = 1
                        eats = [(i, j) for i in range(M) for j in range(M) if F + order[j] in ag[i]["consumes"] and pos[i] == pos[j]]
                        for i, j in eats:
                            act[j] = False
                        tot += sum(ag[0]["rf"][F + order[j]] for i, j in eats if i == 0)
                        if any(j == 0 for i, j in eats):
                            tot += c["cost"]
                            caught = True
                            break
                        if k == 0 or act[k]:
                            req(len(todo[k]) > 0, "agent {} did not move as planned (paths {}, moves {})", ag[k]["name"], full, plan)
                            t = todo[k].pop(0)
                            req(P[pos[k], :, t].any(), "no action leads from {} to {} (agent {}, paths {})", pos[k], t, ag[k]["name"], full)
                            if k == 0:
                                tot += float(np.array(ag[0]["rf"], dtype=float) @ X[:, t])
                            elif c["method"] == "solve":
                                q = vi(P, X, np.array(ag[k]["rf"], dtype=float))[pos[k]]
                                req(any(P[pos[k], a, t] and q[a] >= q.max() - 5e-3 for a in range(len(q))), "agent {} moves from {} to {}, which none of its best actions does", ag[k]["name"], pos[k], t)
                            pos[k] = t
                            X[sorted(set(ag[k]["consumes"])), t] = 0
            req(not any(todo), "more moves than planned: {} (moves {}, caught {})", full, plan, caught)
            for v in full[0]:
                V[v] += tot
                N[v] += 1
        req(close(al.N, N), "visits {} instead of {}", al.N.tolist(), N.tolist())
        req(close(al.V, V, 1e-8), "values {} instead of {} (agent {}, moves {}, paths {})", al.V.tolist(), V.tolist(), ag[0]["name"], plan, al.visited_states)
    req(np.array_equal(m.features, X0) and np.array_equal(m.sas, P0), "the world was changed by planning")
    req(all(env.agents[a["name"]].position == a["pos"] for a in c["agents"]), "an agent was moved by planning")


def test(c):
    dict(overlap=overlap, next=nextstate, search=search, info=info)[c["check"]](c)
