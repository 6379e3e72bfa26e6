import importlib
import numpy as np


class Fail(Exception):
    pass


class Skip(Exception):
    pass


def req(cond, msg, *a):
    if not cond:
        raise Fail(msg.format(*a) if a else msg)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    same = (a == b) | (np.isnan(a) & np.isnan(b))
    with np.errstate(all="ignore"):
        near = np.abs(a - b) <= tol * np.maximum(1.0, np.maximum(np.abs(a), np.abs(b)))
    return bool(np.all(same | near))


def opt(mod, name):
    """a name that a refactoring may have removed: Skip when it is gone"""
    m = importlib.import_module(mod)
    if not hasattr(m, name):
        raise Skip(f"{mod}.{name} no longer exists")
    return getattr(m, name)


def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return True
    return False


# numbers of unusual size, exactly representable so that sums do not depend on the order
ODD = [2.0 ** -7, 2.0 ** -20, -2.0 ** -10, 3.0, -4.0, 128.0, -1024.0, 10.0]

DS = [(0, 1), (1, 0), (0, -1), (-1, 0)]
HODD = {0: (0, 1), 3: (0, -1), 1: (1, 0), 5: (-1, 0), 2: (1, -1), 4: (-1, -1)}
HEVEN = {0: (0, 1), 3: (0, -1), 1: (1, 1), 5: (-1, 1), 2: (1, 0), 4: (-1, 0)}


def grid_sas(kind, W, H, selft):
    """reference transition function (independent of the repository)"""
    na = (4 if kind == "square" else 6) + (1 if selft else 0)
    sas = np.zeros((W * H, na, W * H))
    for x in range(W):
        for y in range(H):
            s = x * H + y
            if kind == "square":
                mv = dict(enumerate(DS))
            else:
                mv = HODD if x % 2 else HEVEN
            for a, (dx, dy) in mv.items():
                u, v = x + dx, y + dy
                if 0 <= u < W and 0 <= v < H:
                    sas[s, a, u * H + v] = 1
            if selft:
                sas[s, na - 1, s] = 1
    return sas


def walled(sas, walls):
    s = sas.copy()
    w = np.asarray(walls) == 1
    s[w, :, :] = 0
    s[:, :, w] = 0
    return s


def mk_grid(kind, W, H, selft=False, walls=None, features=None, nf=1):
    from maMDP.mdp import SquareGridMDP, HexGridMDP
    c = SquareGridMDP if kind == "square" else HexGridMDP
    if features is None:
        features = np.zeros((nf, W * H))
    return c(features=np.array(features, dtype=float), walls=None if walls is None else np.array(walls), shape=(W, H), self_transitions=selft)


def rand_sas(rng, S, A, kind=None):
    """random transition function: 'det' (each action at most one successor), 'stoch'"""
    kind = kind or rng.choice(["det", "det", "stoch"])
    sas = np.zeros((S, A, S))
    for s in range(S):
        for a in range(A):
            if rng.random() < 0.25:
                continue
            if kind == "det":
                sas[s, a, rng.randrange(S)] = 1
            else:
                k = rng.randint(1, S)
                tg = rng.sample(range(S), k)
                w = np.array([rng.choice([rng.randint(1, 8), rng.randint(1, 8), 1000, 1e6]) for _ in tg], dtype=float)
                w = w / w.sum()
                sas[s, a, tg] = w
    return sas
