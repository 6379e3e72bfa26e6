"""Building blocks: an MDP with symbolic states, actions, features and transition function."""
from .base import *


def dims(E, nf=True):
    N, A = E.int("N"), E.int("A")
    E.assume(N >= 1, A >= 1)
    F = E.int("F")
    E.assume(F >= 1)
    return N, A, F


def sas_arr(E, N, A, det=None, name="sas0"):
    f = E.fn(name, 3)
    s, a, t = [z3.Int(f"{name}_{x}") for x in "sat"]
    E.forall([s, a, t], and_(f(s, a, t) >= 0, f(s, a, t) <= 1))
    if det:
        E.forall([s, a, t], or_(f(s, a, t) == 0, f(s, a, t) == 1))
    return E.arr(name, (N, A, N), fn=f), f


def walls_arr(E, N, name="w"):
    f = E.fn(name, 1)
    s = z3.Int(f"{name}_s")
    E.forall([s], or_(f(s) == 0, f(s) == 1))
    return E.arr(name, (N,), fn=f), f


def masked(sf, wf):
    """spec function: the transition function with the walls wf"""
    return lambda s, a, t: ite(or_(eq(wf(s), 1), eq(wf(t), 1)), T.Fraction(0), sf(s, a, t))


def mdp(E, walls=None, det=None, feats=None):
    """MDP(features, sas, walls) through the real constructor"""
    N, A, F = dims(E)
    sas, sf = sas_arr(E, N, A, det)
    feat = E.arr("features", (F, N), fn=feats)
    outs = E.call("maMDP.mdp.MDP", [feat, sas] + ([walls(E, N)] if walls else []))
    return outs, N, A, F, sf, feat, sas


def grid_obj(E, cls="SquareGridMDP", walls=None):
    """a grid MDP of any shape whose transition function is any array of probabilities: the grid-specific
    transition function is covered by its own contract (C01, C02), of which only the range is used here"""
    W, H = E.int("W"), E.int("H")
    F = E.int("F")
    nact = E.int("A")
    E.assume(W >= 1, H >= 1, F >= 1, nact >= 1)
    N = T.mul(W, H)
    E.assume(N >= 1)
    f = E.fn("sas0", 3)
    s, a, t = [z3.Int(f"sas0_{x}") for x in "sat"]
    E.forall([s, a, t], and_(f(s, a, t) >= 0, f(s, a, t) <= 1))
    E.I.contracts[f"maMDP.mdp.{cls}._get_sas"] = lambda I, fv, args, kw: I.new_arr((N, nact, N), "float", f)
    feat = E.arr("features", (F, N))
    kw = dict(shape=(W, H))
    if walls:
        kw["walls"] = walls(E, N)
    outs = E.call(f"maMDP.mdp.{cls}", [feat], kw)
    return outs, W, H, N, nact, F, f, feat
