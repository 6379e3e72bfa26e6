from falsify.util import *


def gen(rng, i):
    k = rng.choice(["mdp", "mdp", "square", "hex"])
    c = {"kind": k}
    if k == "mdp":
        S, A = rng.randint(1, 6), rng.randint(1, 4)
        c.update(S=S, A=A, sas=rand_sas(rng, S, A).tolist(), seed=rng.choice([None, 3]))
        n = S
    else:
        c.update(W=rng.randint(1, 4), H=rng.randint(1, 4), selft=rng.random() < 0.5)
        n = c["W"] * c["H"]
    c["walls"] = None if k == "mdp" or rng.random() < 0.5 else [int(rng.random() < 0.3) for _ in range(n)]
    c["walk"] = [rng.random() for _ in range(rng.randint(0, 8))]
    c["start"] = rng.randrange(n)
    return c


def test(c):
    from maMDP.mdp import MDP
    if c["kind"] == "mdp":
        n = c["S"]
        P = np.array(c["sas"], dtype=float).reshape(n, c["A"], n)
        m = MDP(features=np.zeros((1, n)), sas=P.copy(), seed=c["seed"])
    else:
        P = grid_sas(c["kind"], c["W"], c["H"], c["selft"])
        n = c["W"] * c["H"]
        m = mk_grid(c["kind"], c["W"], c["H"], c["selft"], c["walls"])
        if c["walls"] is not None:
            P = walled(P, c["walls"])
    A = P.shape[1]
    det = not np.any((P > 0) & (P < 1))
    for s in range(n):
        va = set(int(x) for x in m.state_valid_actions(s))
        req(va == {a for a in range(A) if P[s, a].any()}, "valid actions of state {}: {}", s, sorted(va))
        for a in range(A):
            succ = np.where(P[s, a] > 0)[0]
            if len(succ) == 0:
                req(raises(ValueError, m.get_next_state, s, a), "action {} is not available in state {} but get_next_state did not raise", a, s)
            else:
                seen = set()
                for _ in range(1 if det else 4):
                    t = int(m.get_next_state(s, a))
                    req(t in succ, "get_next_state({}, {}) gave {}, possible are {}", s, a, t, succ.tolist())
        for t in range(n):
            acts = np.where(P[s, :, t] > 0)[0].tolist()
            req(bool(m.is_adjacent(s, t)) == bool(acts), "is_adjacent({}, {})", s, t)
            req(bool(m.adjacency[s, t]) == bool(acts), "adjacency[{}, {}]", s, t)
            f = getattr(m, "_state_pair_to_action", None)
            if f is not None:
                if acts:
                    req([int(x) for x in f(s, t, return_max=False)] == acts, "actions from {} to {}: {}", s, t, f(s, t, return_max=False))
                    b = f(s, t)
                    req(len(b) == 1 and int(b[0]) == int(np.argmax(P[s, :, t])), "most likely action from {} to {}: {}", s, t, b)
                else:
                    req(raises(AttributeError, f, s, t), "states {} and {} are not adjacent but an action was returned", s, t)
    # a trajectory
    tr = [c["start"]]
    for r in c["walk"]:
        nb = np.where(P[tr[-1]].sum(axis=0) > 0)[0]
        if len(nb) == 0:
            break
        tr.append(int(nb[int(r * len(nb))]))
    g = getattr(m, "_trajectory_to_state_action", None)
    if g is None:
        raise Skip("no trajectory conversion")
    sa = np.asarray(g(tr))
    req(sa.shape == (len(tr) - 1, 2), "trajectory of {} states gives {} pairs", len(tr), sa.shape)
    for k in range(len(tr) - 1):
        req(sa[k, 0] == tr[k], "pair {} names state {} instead of {}", k, sa[k, 0], tr[k])
        req(sa[k, 1] == np.argmax(P[tr[k], :, tr[k + 1]]), "pair {} names action {}", k, sa[k, 1])
    far = [t for t in range(n) if not (P[tr[-1], :, t] > 0).any()]
    if far:
        req(raises(AttributeError, g, tr + [far[0]]), "a trajectory with a gap was converted")
        req(raises(AttributeError, g, tr + [far[0]] + tr[:1]), "a trajectory with a gap was converted")
    if c["kind"] == "mdp" and not det:
        # sampling frequencies follow the probabilities
        s = c["start"]
        for a in range(A):
            p = P[s, a]
            if p.sum() > 0:
                N = 400
                cnt = np.bincount([int(m.get_next_state(s, a)) for _ in range(N)], minlength=n) / N
                req(np.all(np.abs(cnt - p) < 6 * np.sqrt(p * (1 - p) / N) + 0.02), "frequencies {} for probabilities {}", cnt.tolist(), p.tolist())
                break
