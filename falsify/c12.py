from falsify.util import *
NAN, NINF = float("nan"), float("-inf")


def gen_q(rng):
    S, A = rng.randint(1, 6), rng.randint(1, 6)
    vals = rng.choice([[0, 1], [0, 1, 2, -1], [0.1, 0.2, 0.30000000000000004, -5, 1e6], [1e-12, 0, -1e-12, 3], [-1e7, -1e9, 1e9, 0, -1e12], [1e15, 1e15 + 1, -1e15], [0, 700, 800, -750]])
    q = []
    for s in range(S):
        r = rng.random()
        row = [rng.choice(vals) for _ in range(A)]
        if r < 0.15:
            row = [NAN] * A
        elif r < 0.25:
            row = [NINF] * A
        elif r < 0.6:
            row = [x if rng.random() < 0.6 else rng.choice([NAN, NINF]) for x in row]
        q.append(row)
    return q


def enc(q):
    return [[repr(x) for x in r] for r in q]


def dec(q):
    return np.array([[float(x) for x in r] for r in q])


def gen(rng, i):
    return {"q": enc(gen_q(rng)), "seed": rng.choice([None, rng.randrange(100)]), "rep": rng.randint(1, 6), "bad": rng.random() < 0.05}


def check_bad(sel, q):
    for f in (sel.get_pi, sel.get_pi_p):
        req(raises(TypeError, f, q.tolist()), "a list of action values is accepted")
        req(raises(AttributeError, f, q[0]), "one-dimensional action values are accepted")
        req(raises(ValueError, f, np.full_like(q, np.nan)), "action values that are all missing are accepted")


def test(c):
    from maMDP.algorithms.action_selection import MaxActionSelector
    q = dec(c["q"])
    sel = MaxActionSelector(seed=c["seed"])
    if c["bad"]:
        return check_bad(sel, q)
    q0 = q.copy()
    if np.all(np.isnan(q)):
        req(raises(ValueError, sel.get_pi, q), "all-NaN action values accepted")
        return
    e = np.where(np.isnan(q), NINF, q)
    best = e == e.max(axis=1, keepdims=True)
    nanrow = np.all(np.isnan(q), axis=1)
    for _ in range(c["rep"]):
        pi = np.asarray(sel.get_pi(q))
        req(pi.shape == (q.shape[0],), "policy has shape {}", pi.shape)
        for s in range(q.shape[0]):
            if nanrow[s]:
                req(pi[s] == -1, "state {} has no action values but gets action {}", s, pi[s])
            else:
                req(pi[s] == int(pi[s]) and 0 <= pi[s] < q.shape[1] and best[s, int(pi[s])], "state {}: action {} chosen, values {}", s, pi[s], q[s].tolist())
        pp = np.asarray(sel.get_pi_p(q))
        req(pp.shape == q.shape, "probabilities have shape {}", pp.shape)
        want = best / best.sum(axis=1, keepdims=True)
        want[nanrow] = np.nan
        req(close(pp, want), "action probabilities {} instead of {} for values {}", pp.tolist(), want.tolist(), q.tolist())
        req(np.array_equal(q, q0, equal_nan=True), "the given action values were modified")
    if c["seed"] is not None:
        a = [np.asarray(MaxActionSelector(seed=c["seed"]).get_pi(q)).tolist() for _ in range(2)]
        req(a[0] == a[1], "two selectors with the same seed choose differently")
