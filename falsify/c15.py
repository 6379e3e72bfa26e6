from falsify.envsim import gen_env
from falsify.util import *


def gen(rng, i):
    c, n, F, M = gen_env(rng, max_agents=1 if rng.random() < 0.7 else 2, stoch=False)
    c.update(n_iter=rng.choice([1, 2, 5, 20, 120]), moves=rng.choice([1, 2, 3, 6, 15]), C=rng.choice([0.5, 1.0, 5.0]), plan=rng.choice([None, None, [1], [2, 3], [4]]), twice=rng.random() < 0.3)
    return c


def path_reward(P, X, w, mark, cons, start, path):
    X = X.copy()
    cur, tot = start, 0.0
    for v in path:
        req(P[cur, :, v].any(), "no action leads from {} to {} (path {} from {})", cur, v, path, start)
        X[mark] = 0
        X[mark, cur] = 1
        tot += float(w @ X[:, v])
        cur = v
        X[cons, v] = 0
    return tot


def test(c):
    from maMDP.mdp import MDP
    from maMDP.agents import Agent
    from maMDP.environments import Environment
    from maMDP.algorithms.mcts import MCTS
    feats = np.array(c["features"], dtype=float)
    if c["kind"] == "mdp":
        n = c["S"]
        P = np.array(c["sas"], dtype=float).reshape(n, c["A"], n)
        m = MDP(features=feats.copy(), sas=P.copy())
    else:
        n = c["W"] * c["H"]
        P = grid_sas(c["kind"], c["W"], c["H"], c["selft"])
        m = mk_grid(c["kind"], c["W"], c["H"], c["selft"], c["walls"], feats.copy())
        if c["walls"] is not None:
            P = walled(P, c["walls"])
    # every state that can be reached from the start has an available action
    F, M, a0 = len(feats), len(c["agents"]), c["agents"][0]
    reach, todo = {a0["pos"]}, [a0["pos"]]
    while todo:
        s = todo.pop()
        for t in np.where(P[s].any(axis=0))[0]:
            if int(t) not in reach:
                reach.add(int(t))
                todo.append(int(t))
    if not all(P[s].any() for s in reach):
        raise Skip("a state without actions can be reached")
    ags, als = {}, []
    for k, a in enumerate(c["agents"]):
        g = Agent(a["name"], n_moves=c["moves"], algorithm=MCTS, algorithm_kwargs=dict(n_iter=c["n_iter"], C=c["C"], return_states=True))
        als.append(g.algorithm)
        ags[g] = (a["pos"], np.array(a["rf"], dtype=float), list(a["consumes"]))
    env = Environment(m, ags)
    ag = env.agents["ag0"]
    al, X, w = als[0], m.features.copy(), np.array(a0["rf"], dtype=float)
    P0 = m.sas.copy()
    for _ in range(2 if c["twice"] else 1):
        if c["plan"] is None:
            ag.fit()
            steps = c["moves"]
        else:
            ag.fit(n_moves=[list(c["plan"])])
            steps = sum(c["plan"])
        V, N = np.zeros(n), np.zeros(n)
        req(len(al.visited_states) == c["n_iter"], "{} paths for {} iterations", len(al.visited_states), c["n_iter"])
        for path in al.visited_states:
            path = [int(v) for v in path]
            req(len(path) == steps, "path {} for {} moves", path, steps)
            r = path_reward(P, X, w, F, sorted(set(a0["consumes"])), a0["pos"], path)
            for v in path:
                V[v] += r
                N[v] += 1
        req(close(al.N, N), "visits {} instead of {}", al.N.tolist(), N.tolist())
        req(close(al.V, V, 1e-8) and close(al.values, V, 1e-8), "values {} instead of {}", al.V.tolist(), V.tolist())
        q = np.full(P.shape[:2], np.nan)
        for a in range(P.shape[1]):
            t = np.where(P[a0["pos"], a])[0]
            if len(t):
                q[a0["pos"], a] = V[t[0]] / (1 + N[t[0]])
        req(close(al.q_values, q, 1e-8), "action values {} instead of {}", al.q_values.tolist(), q.tolist())
        # every first move is tried before any is repeated
        first = [int(p[0]) for p in al.visited_states]
        succ = set(int(t) for t in np.where(P[a0["pos"]].any(axis=0))[0])
        if c["plan"] is None and c["moves"] == 1:
            k = min(len(first), len(succ))
            req(len(set(first[:k])) == k, "successors {} of the root tried in the order {}", sorted(succ), first)
    req(np.array_equal(m.features, X) and np.array_equal(m.sas, P0), "the world was changed by planning")
    req(all(env.agents[a["name"]].position == a["pos"] for a in c["agents"]), "an agent was moved by planning")
