from falsify.util import *


def gen(rng, i):
    kind = rng.choice(["mdp", "square", "hex", "square", "hex"])
    c = {"kind": kind}
    if kind == "mdp":
        S, A = rng.randint(1, 6), rng.randint(1, 4)
        c.update(S=S, A=A, sas=rand_sas(rng, S, A).tolist())
        n = S
    else:
        c.update(W=rng.randint(1, 5), H=rng.randint(1, 5), selft=rng.random() < 0.5)
        n = c["W"] * c["H"]
    p = rng.choice([0.0, 0.2, 0.5, 1.0])
    wl = lambda: [int(rng.random() < p) for _ in range(n)]
    c["init"] = None if rng.random() < 0.4 else wl()
    ops = []
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        p = rng.choice([0.0, 0.2, 0.5, 1.0])
        if r < 0.35 or kind == "mdp" and r < 0.6:
            ops.append(["set", wl(), rng.choice(["float", "int"])])
        elif r < 0.6:
            def co(m):
                if rng.random() < 0.5:
                    return [rng.randrange(m)] if rng.random() < 0.6 or m < 3 else sorted(rng.sample(range(m), 3))
                a, b = sorted([rng.randint(0, m), rng.randint(0, m)])
                return [a, b]
            ops.append(["xy", co(c["W"]), co(c["H"]), rng.choice(["tuple", "list"])])
        elif r < 0.7 and kind != "mdp":
            ops.append(["clear"])
        else:
            bad = rng.choice(["len", "value", "rank", "frac", "neg"])
            ops.append(["bad", bad, rng.randrange(n)])
    c["ops"] = ops
    return c


def check(m, base, walls, what):
    ref = walled(base, walls)
    req(np.array_equal(m.sas, ref), "after {}: transition function is not the original one without the walled states {}", what, np.where(np.asarray(walls) == 1)[0].tolist())
    req(np.array_equal(np.asarray(m.walls, dtype=float), np.asarray(walls, dtype=float)), "after {}: walls reads {} instead of {}", what, np.asarray(m.walls).tolist(), np.asarray(walls).tolist())
    req(np.array_equal(np.asarray(m.adjacency), (ref.sum(axis=1) > 0).astype(int)), "after {}: adjacency does not match the transition function", what)
    n = base.shape[0]
    for s in range(n):
        for t in range(n):
            req(bool(m.is_adjacent(s, t)) == bool((ref[s, :, t] > 0).any()), "after {}: is_adjacent({},{})", what, s, t)


def test(c):
    from maMDP.mdp import MDP
    if c["kind"] == "mdp":
        n = c["S"]
        base = np.array(c["sas"], dtype=float).reshape(n, c["A"], n)
        given = base.copy()
        w0 = None if c["init"] is None else np.array(c["init"])
        m = MDP(features=np.zeros((1, n)), sas=given, walls=w0)
    else:
        base = grid_sas(c["kind"], c["W"], c["H"], c["selft"])
        n = c["W"] * c["H"]
        given = None
        m = mk_grid(c["kind"], c["W"], c["H"], c["selft"], c["init"])
    walls = np.zeros(n) if c["init"] is None else np.array(c["init"], dtype=float)
    check(m, base, walls, "construction")
    if given is not None:
        req(np.array_equal(given, base), "the caller's transition array was modified by the constructor")
    for k, op in enumerate(c["ops"]):
        what = "operation %d %s" % (k, op[0])
        if op[0] == "set":
            walls = np.array(op[1], dtype=float)
            m.walls = np.array(op[1], dtype=op[2])
        elif op[0] == "xy":
            mk = tuple if op[3] == "tuple" else list
            m.add_wall_xy(mk(op[1]), mk(op[2]))
            xs = range(*op[1]) if len(op[1]) == 2 else op[1]
            ys = range(*op[2]) if len(op[2]) == 2 else op[2]
            walls = walls.copy()
            for x in xs:
                for y in ys:
                    walls[x * c["H"] + y] = 1
        elif op[0] == "clear":
            m.reset_walls()
            walls = np.zeros(n)
        else:
            bad = {"len": np.zeros(n + 1), "value": np.zeros(n), "rank": np.zeros((n, 1)), "frac": np.zeros(n), "neg": np.zeros(n)}[op[1]]
            if op[1] in ("value", "frac", "neg"):
                bad[op[2]] = {"value": 2, "frac": 0.5, "neg": -1}[op[1]]
            try:
                m.walls = bad
            except (AttributeError, ValueError):
                pass
            else:
                raise Fail("an invalid wall array (%s) was accepted" % op[1])
        check(m, base, walls, what)
        if given is not None:
            req(np.array_equal(given, base), "the caller's transition array was modified")
