from falsify.util import *


def gen(rng, i):
    k = rng.choice(["states", "ucb", "next", "next", "values"])
    S, A = rng.randint(1, 7), rng.randint(1, 5)
    P = rand_sas(rng, S, A)
    c = dict(kind=k, S=S, A=A, sas=P.tolist(), node=rng.randrange(S), C=rng.choice([0.0, 0.5, 1.0, 3.0, 0.001, 200.0]))
    hi = rng.choice([1, 3, 30, 5000])
    c["N"] = [rng.choice([0, rng.randint(1, hi), rng.randint(1, hi)]) for _ in range(S)]
    c["V"] = [rng.choice([0, 0, rng.randint(-20, 20), rng.random() * 10, rng.choice(ODD), rng.choice([1e-6, 1e5, -1e5])]) if n else 0 for n in c["N"]]
    c["states"] = sorted(rng.sample(range(S), rng.randint(1, S)))
    if rng.random() < 0.3:
        c["states"] = [rng.choice(c["states"]) for _ in range(rng.randint(1, 5))]
    c["expand"] = rng.random() < 0.75
    return c


def test(c):
    P = np.array(c["sas"], dtype=float)
    V, N, ST = np.array(c["V"], dtype=float), np.array(c["N"], dtype=float), np.array(c["states"])
    node, S, A, C = c["node"], c["S"], c["A"], c["C"]
    keep = P.copy(), V.copy(), N.copy(), ST.copy()
    avail = sorted((a, t) for a in range(A) for t in range(S) if P[node, a, t] != 0)
    k = c["kind"]
    if k == "states":
        both, acts, sts = opt("maMDP.algorithms.mcts", "get_actions_states")(P, node)
        got = [(int(a), int(t)) for a, t in zip(acts, sts)]
        req(len(acts) == len(sts) and sorted(got) == avail, "actions and states of {} are {} instead of {}", node, got, avail)
        req([tuple(int(v) for v in x) for x in both] == got, "pairs {} differ from {}", both.tolist(), got)
    if k == "values":
        acts, vals, sts = opt("maMDP.algorithms.mcts", "get_MCTS_action_values")(node, P, V, N)
        req(sorted((int(a), int(t)) for a, t in zip(acts, sts)) == avail, "actions {}", acts.tolist())
        want = [V[t] / (1 + N[t]) for t in sts]
        req(close(vals, want), "action values {} instead of {}", vals.tolist(), want)
    n1 = N.copy()
    n1[node] = max(n1[node], 1)
    with np.errstate(all="ignore"):
        ref = V / (1 + n1) + C * np.sqrt(2 * np.log(n1[node]) / (1 + n1))
    if k == "ucb":
        N[:] = n1
        got = opt("maMDP.algorithms.mcts", "UCB")(V, N, ST, C, node)
        req(close(got, ref[ST]), "bounds {} instead of {}", got.tolist(), ref[ST].tolist())
        N[:] = keep[2]
    if k == "next":
        f = opt("maMDP.algorithms.mcts", "MCTS_next_node")
        N[:] = n1
        for _ in range(3):
            nx, ex = f(c["expand"], V, N, ST, C, node)
            req(nx in c["states"], "{} is not one of {}", nx, c["states"])
            if c["expand"] and any(n1[t] == 0 for t in c["states"]):
                req(n1[nx] == 0, "visited candidate {} chosen (visits {})", nx, n1.tolist())
                req(not ex, "still expanding after an expansion")
            elif c["expand"]:
                req(ref[nx] >= ref[ST].max() - 1e-9, "{} chosen from {} with bounds {}", nx, c["states"], ref[ST].tolist())
                req(bool(ex), "no longer selecting although nothing was expanded")
            else:
                req(not ex, "expanding again while simulating")
        req(np.array_equal(N, n1), "visit counts modified")
        N[:] = keep[2]
    req(all(np.array_equal(a, b) for a, b in zip(keep, (P, V, N, ST))), "inputs modified")
