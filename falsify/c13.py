from falsify.c12 import *


def gen(rng, i):
    return {"q": enc(gen_q(rng)), "seed": rng.choice([None, rng.randrange(100)]), "rep": rng.randint(1, 6), "T": rng.choice([1, 1, 0.5, 2, 0.01, 100, 1e-3, 1e-7, 1e5]),
            "bad": rng.random() < 0.05}


def test(c):
    from maMDP.algorithms.action_selection import SoftmaxActionSelector
    q, T = dec(c["q"]), c["T"]
    sel = SoftmaxActionSelector(temperature=T, seed=c["seed"])
    if c["bad"]:
        for t in (0, -1, -0.5):
            req(raises(ValueError, SoftmaxActionSelector, temperature=t), "temperature {} accepted", t)
        return check_bad(sel, q)
    q0 = q.copy()
    if np.all(np.isnan(q)):
        req(raises(ValueError, sel.get_pi_p, q), "all-NaN action values accepted")
        return
    e = np.where(np.isnan(q), NINF, q)
    nanrow = np.all(np.isnan(q), axis=1)
    want = np.zeros(q.shape)
    for s in range(q.shape[0]):
        if nanrow[s]:
            want[s] = np.nan
        elif np.all(np.isneginf(e[s])):
            want[s] = 1 / q.shape[1]
        else:
            x = np.exp((e[s] - e[s].max()) / T)
            want[s] = x / x.sum()
    for _ in range(c["rep"]):
        pp = np.asarray(sel.get_pi_p(q))
        req(pp.shape == q.shape, "probabilities have shape {}", pp.shape)
        req(close(pp, want, 1e-9), "softmax probabilities {} instead of {} (temperature {}, values {})", pp.tolist(), want.tolist(), T, q.tolist())
        pi = np.asarray(sel.get_pi(q))
        req(pi.shape == (q.shape[0],), "policy has shape {}", pi.shape)
        for s in range(q.shape[0]):
            if nanrow[s]:
                req(pi[s] == -1, "state {} has no action values but gets action {}", s, pi[s])
            else:
                req(pi[s] == int(pi[s]) and 0 <= pi[s] < q.shape[1] and want[s, int(pi[s])] > 0, "state {}: action {} of probability 0 chosen, values {}", s, pi[s], q[s].tolist())
        req(np.array_equal(q, q0, equal_nan=True), "the given action values were modified")
    if c["seed"] is not None:
        a = [np.asarray(SoftmaxActionSelector(temperature=T, seed=c["seed"]).get_pi(q)).tolist() for _ in range(2)]
        req(a[0] == a[1], "two selectors with the same seed choose differently")
