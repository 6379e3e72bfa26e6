from falsify.util import *


def gen(rng, i):
    kind = rng.choice(["mdp", "mdp", "square", "hex"])
    c = {"kind": kind}
    if kind == "mdp":
        S, A = rng.randint(1, 6), rng.randint(1, 4)
        c.update(S=S, A=A, sas=rand_sas(rng, S, A).tolist())
        n = S
        c["walls"] = None
    else:
        c.update(W=rng.randint(1, 4), H=rng.randint(1, 4), selft=rng.random() < 0.5)
        n = c["W"] * c["H"]
        c["walls"] = None if rng.random() < 0.5 else [int(rng.random() < 0.25) for _ in range(n)]
    F = rng.randint(1, 3)
    c["features"] = [[rng.choice([0, 0, 1, 1, 0.5, 2, -1, 3, rng.choice(ODD)]) for _ in range(n)] for _ in range(F)]
    c["rf"] = [rng.choice([0, 1, -1, 2, 0.5, -3, 0.25, 20, -100, 0.01]) for _ in range(F)]
    c["discount"] = rng.choice([0.9, 0.5, 0.1, 0.95, 0.99, 0.01])
    c["tol"] = rng.choice([1e-8, 1e-8, 1e-4, 1e-2, 1])
    c["max_iter"] = rng.choice([6000, 6000, 6000, 1, 2, 3, 7, 50])
    c["soft"] = rng.random() < 0.2
    c["bad"] = rng.choice([0, 1, 1.5, -0.5]) if rng.random() < 0.03 else None
    return c


def build(c):
    feats = np.array(c["features"], dtype=float)
    if c["kind"] == "mdp":
        from maMDP.mdp import MDP
        n = c["S"]
        P = np.array(c["sas"], dtype=float).reshape(n, c["A"], n)
        return MDP(features=feats, sas=P.copy()), P
    m = mk_grid(c["kind"], c["W"], c["H"], c["selft"], c["walls"], feats)
    P = grid_sas(c["kind"], c["W"], c["H"], c["selft"])
    if c["walls"] is not None:
        P = walled(P, c["walls"])
    return m, P


def judge(c, values, q, P, r, soft):
    g, tol = c["discount"], c["tol"]
    N, A, _ = P.shape
    values, q = np.asarray(values, dtype=float), np.asarray(q, dtype=float)
    req(values.shape == (N,) and q.shape == (N, A), "shapes {} {}", values.shape, q.shape)
    av = P.sum(axis=-1) > 0
    req(np.all(np.isneginf(q[~av])), "an unavailable action has value {}", q[~av][:5].tolist())
    req(np.all(np.isfinite(q[av])) and np.all(np.isfinite(values)), "not finite: {} {}", values.tolist(), q.tolist())
    best = np.zeros(N)
    for s in range(N):
        if av[s].any():
            x = q[s, av[s]]
            best[s] = np.log(np.sum(np.exp(x - x.max()))) + x.max() if soft else x.max()
    req(close(values, best, 1e-9), "values {} instead of {} from the action values", values.tolist(), best.tolist())
    if c["max_iter"] >= 6000:
        back = P @ (r + g * values)
        err = np.abs(np.where(av, q - back, 0)).max()
        req(err <= g * tol + 1e-9 * max(1, np.abs(values).max()), "action values miss the Bellman equation by {} (tolerance {}, discount {})", err, tol, g)
    return av


def test(c):
    from maMDP.algorithms.dynamic_programming import ValueIteration
    m, P = build(c)
    rf = np.array(c["rf"], dtype=float)
    r = rf @ np.array(c["features"], dtype=float)
    if c["bad"] is not None:
        al = ValueIteration(discount=c["bad"], tol=c["tol"], max_iter=c["max_iter"])
        req(raises(Exception, al.fit, m, rf, 0), "discount {} accepted", c["bad"])
        return
    if c["soft"]:
        f = opt("maMDP.algorithms.dynamic_programming", "solve_value_iteration")
        if np.abs(r).max() / (1 - c["discount"]) > 300:
            return
        v, q = f(rf.copy(), np.array(c["features"], dtype=float), c["max_iter"], c["discount"], P.copy(), c["tol"], True)
        judge(c, v, q, P, r, True)
        return
    al = ValueIteration(discount=c["discount"], tol=c["tol"], max_iter=c["max_iter"])
    f0, p0, rf0 = np.array(m.features), np.array(m.sas), rf.copy()
    for _ in range(2):
        al.fit(m, rf, 0)
        judge(c, al.values, al.q_values, P, r, False)
        if c["max_iter"] >= 6000:
            N, A, _x = P.shape
            av = P.sum(axis=-1) > 0
            v = np.zeros(N)
            for _k in range(4000):
                qq = np.where(av, P @ (r + c["discount"] * v), -np.inf)
                w = np.where(av.any(axis=1), qq.max(axis=1), 0)
                if np.abs(w - v).max() < 1e-13:
                    break
                v = w
            bound = c["tol"] * c["discount"] / (1 - c["discount"]) + 1e-8 + 1e-10 * np.abs(v).max()
            req(np.abs(np.asarray(al.values) - v).max() <= bound, "values {} are further than {} from the optimal values {}", np.asarray(al.values).tolist(), bound, v.tolist())
        req(np.array_equal(f0, m.features) and np.array_equal(p0, m.sas) and np.array_equal(rf, rf0), "value iteration changed the MDP or the reward function")
