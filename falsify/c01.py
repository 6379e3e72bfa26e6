from falsify.util import *

KIND = "square"


def gen(rng, i):
    small = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3), (4, 3), (3, 4), (1, 5), (5, 1), (10, 15)]
    if i < 2 * len(small):
        W, H = small[i // 2]
        return {"kind": KIND, "W": W, "H": H, "self": bool(i % 2)}
    W, H = rng.randint(1, 9), rng.randint(1, 9)
    if rng.random() < 0.1:
        W, H = rng.choice([(1, rng.randint(8, 25)), (rng.randint(8, 25), 1), (12, 3), (3, 13)])
    return {"kind": KIND, "W": W, "H": H, "self": bool(rng.randrange(2))}


def test(c):
    W, H, st = c["W"], c["H"], c["self"]
    m = mk_grid(c["kind"], W, H, st, nf=2)
    ref = grid_sas(c["kind"], W, H, st)
    sas = np.asarray(m.sas)
    req(sas.shape == ref.shape, "transition function has shape {} instead of {}", sas.shape, ref.shape)
    d = np.argwhere(sas != ref)
    if len(d):
        s, a, t = (int(v) for v in d[0])
        raise Fail("grid {}x{} self={}: P(state {} | state {}, action {}) is {} instead of {}".format(W, H, st, t, s, a, sas[s, a, t], ref[s, a, t]))
    req(m.n_states == W * H and m.n_actions == ref.shape[1], "n_states={} n_actions={}", m.n_states, m.n_actions)
    req(np.array_equal(np.asarray(m.adjacency) != 0, ref.sum(axis=1) > 0), "adjacency does not match the transition function")
    req(np.shape(m.grid_coords) == (W * H, 2), "coordinate table has shape {}", np.shape(m.grid_coords))
    for s in range(W * H):
        x, y = s // H, s % H
        gc = m.get_state_coords(s)
        req((int(gc[0]), int(gc[1])) == (x, y), "coordinates of state {} are {} instead of {}", s, list(gc), (x, y))
        ix = m.state_to_idx(s)
        req((int(ix[0]), int(ix[1])) == (x, y), "index of state {} is {} instead of {}", s, ix, (x, y))
        req(int(m.idx_to_state((x, y))) == s, "state at {} is {} instead of {}", (x, y), m.idx_to_state((x, y)), s)
    g = m.flat_to_grid(np.arange(W * H))
    req(g.shape == (W, H) and all(g[s // H, s % H] == s for s in range(W * H)), "flat_to_grid misplaces states")
    fg = m.features_as_grid()
    req(fg.shape == (2, W, H), "features_as_grid has shape {}", fg.shape)
