from falsify.util import *


def rand_traj(rng, S):
    return [rng.randrange(S) for _ in range(rng.choice([rng.randint(1, 6), rng.randint(1, 6), 20]))]


def gen(rng, i):
    k = rng.choice(["visit", "mf", "mf", "mce", "start"])
    S, A, F = rng.randint(1, 6), rng.randint(1, 4), rng.randint(1, 4)
    c = dict(kind=k, S=S, A=A, F=F, sas=rand_sas(rng, S, A).tolist())
    c["features"] = [[rng.choice([0, 0, 1, 2, 0.5, -1, 2.0 ** -10, 16 if k == "mf" else 0.25]) for _ in range(S)] for _ in range(F)]
    c["trajs"] = [rand_traj(rng, S) for _ in range(rng.choice([1, 2, 3, 4, rng.randint(5, 9)]))]
    c["ignore"] = [rng.randrange(F) for _ in range(rng.choice([0, 0, 1, 2]))]
    if k == "visit":
        pi = np.array([[rng.randint(0, 4) for _ in range(A)] for _ in range(S)], dtype=float)
        pi /= np.maximum(pi.sum(axis=1, keepdims=True), 1)
        p0 = np.array([rng.randint(0, 3) for _ in range(S)], dtype=float)
        c.update(pi=pi.tolist(), p0=(p0 / max(p0.sum(), 1)).tolist(), n=rng.choice([0, 1, 2, 3, 5, 10]))
    if k == "mf":
        c["many"] = rng.choice([0, 0, 1, 2])
        c["features2"] = [[[rng.choice([0, 1, 3]) for _ in range(S)] for _ in range(F)] for _ in c["trajs"]]
    if k == "mce":
        c.update(lr=rng.choice([0.1, 0.3, 1.0]), decay=rng.choice([0, 0, 1, 0.5]), rounds=rng.choice([1, 2, 3]), vi=rng.choice([1, 3, 20]),
                 soft=rng.random() < 0.7, theta=None if rng.random() < 0.5 else [rng.choice([0, 1, -0.5]) for _ in range(F)])
    return c


def flow(P, n, pi, p0):
    D = np.zeros(len(p0))
    for _ in range(n):
        D = p0 + np.einsum("s,sa,sat->t", D, pi, P)
    return D


def test(c):
    from maMDP.mdp import MDP
    from maMDP.algorithms import irl
    P, X = np.array(c["sas"], dtype=float), np.array(c["features"], dtype=float)
    k = c["kind"]
    if k == "visit":
        f = opt("maMDP.algorithms.irl", "state_visitation_iterator")
        pi, p0 = np.array(c["pi"]), np.array(c["p0"])
        keep = P.copy(), pi.copy(), p0.copy()
        got = f(P, c["n"], pi, p0)
        want = flow(keep[0], c["n"], keep[1], keep[2])
        req(close(got, want, 1e-9), "visitation frequencies {} instead of {}", np.asarray(got).tolist(), want.tolist())
        req(all(np.array_equal(a, b) for a, b in zip(keep, (P, pi, p0))), "inputs modified")
        return
    m = MDP(features=X.copy(), sas=P.copy())
    ig = sorted(set(c["ignore"]))
    if k == "mf":
        al = irl.MFFeatureMatching()
        tr = [list(t) for t in c["trajs"]]
        if c["many"]:
            Xs = [np.array(x, dtype=float) for x in c["features2"]]
            ms = [MDP(features=x.copy(), sas=P.copy()) for x in Xs]
            if c["many"] == 2 and len(ms) > 1:
                req(raises(AttributeError, al.fit, ms[:-1], tr), "different numbers of MDPs and trajectories accepted")
        else:
            Xs, ms = [X] * len(tr), m
        want = np.zeros(c["F"])
        for x, t in zip(Xs, tr):
            for s in t[1:]:
                want += x[:, s]
        want[ig] = 0
        for _ in range(2):
            got = al.fit(ms, tr, ignore_features=list(c["ignore"]))
            req(close(got, want, 1e-9), "weights {} instead of {}", np.asarray(got).tolist(), want.tolist())
            req(close(al.theta, want, 1e-9), "theta {} instead of {}", np.asarray(al.theta).tolist(), want.tolist())
        req(tr == c["trajs"], "trajectories modified")
        for x, mm in zip(Xs, ms if c["many"] else [m]):
            req(np.array_equal(mm.features, x) and np.array_equal(mm.sas, P), "MDP modified")
        return
    p0 = np.zeros(c["S"])
    for t in c["trajs"]:
        p0[t[0]] += 1.0 / len(c["trajs"])
    if k == "start":
        al = irl.MaxCausalEntIRL()
        if not hasattr(al, "_get_state_visitation_frequencies"):
            raise Skip("gone")
        pi = np.ones((c["S"], c["A"])) / c["A"]
        al._get_state_visitation_frequencies(m, c["trajs"], pi, 3)
        req(close(al.D_, flow(P, 3, pi, p0), 1e-9), "frequencies {} instead of {}", al.D_.tolist(), flow(P, 3, pi, p0).tolist())
        return
    from maMDP.algorithms.dynamic_programming import solve_value_iteration
    al = irl.MaxCausalEntIRL(learning_rate=c["lr"], decay=c["decay"], max_iter_irl=c["rounds"], VI_max_iter=c["vi"], soft=c["soft"], theta=None if c["theta"] is None else np.array(c["theta"], dtype=float))
    vis = np.zeros(c["S"])
    for t in c["trajs"]:
        for s in t:
            vis[s] += 1.0 / len(t) / len(c["trajs"])
    obs = X @ vis
    obs[ig] = 0
    th = np.zeros(c["F"]) if c["theta"] is None else np.array(c["theta"], dtype=float)
    th[ig] = 0
    ok = np.array([P[s].sum() > 0 for s in range(c["S"])])
    if not ok.all():
        raise Skip("a state without actions")
    err = None
    for r in range(c["rounds"] if c["decay"] == 0 else 1):
        _, q = solve_value_iteration(th.copy(), X.copy(), c["vi"], 0.9, P.copy(), 1e-8, c["soft"])
        pi = al.action_selector.get_pi_p(q)
        exp = X @ flow(P, c["vi"], pi, p0)
        exp[ig] = 0
        err = obs - exp
        th = th + c["lr"] * err
        if np.mean(np.abs(err)) < 1e-8:
            break
    got = al.fit(m, [list(t) for t in c["trajs"]], ignore_features=list(c["ignore"]), show_progress=False)
    req(close(al.error_history[0] if len(al.error_history) else None, obs - exp if (c["rounds"] == 1 or c["decay"]) else al.error_history[0], 1e-7), "first error {}", al.error_history[:1])
    req(np.all(np.asarray(got)[ig] == 0), "ignored features {} have weights {}", ig, np.asarray(got).tolist())
    if c["decay"] == 0 or c["rounds"] == 1:
        req(close(got, th, 1e-7), "weights {} instead of {}", np.asarray(got).tolist(), th.tolist())
    req(np.array_equal(m.features, X) and np.array_equal(m.sas, P), "MDP modified")
