"""C09: the one-step distribution of an agent is the exact mixture over its position, policy and the transitions."""
from .envs import *


def mixture(E, d, st, pos, t):
    """sum over states s and actions a of  pos(s) / sum(pos) * pi_p(s, a) * P(s, a, t)"""
    N, A = d["N"], d["A"]
    P = lambda s, a, u: E.rd(E.get(d["m"], "sas", st), st, s, a, u)
    tot = E.total(pos, N)
    return E.psum(lambda s: T.mul(T.truediv_fin(pos(s), tot), E.psum(lambda a: T.mul(d["pipf"](s, a), P(s, a, t)), A)), N)


def proba(given):
    def f():
        E = Env("AttachedAgent.step_proba(%s)" % ("position given" if given else "current position"))
        d = attached(E)
        st, ag, m, N = d["st"], d["agent"], d["m"], d["N"]
        st.pc.append(d["fit"])
        t = E.int("t")
        if given:
            pf = E.fn("pos", 1)
            j = z3.Int("pos_j")
            E.forall([j], pf(j) >= 0)
            st.pc.append(E.total(pf, N) > 0)
            E.I.st = st
            arg = [E.I.new_arr((N,), "float", pf)]
        else:
            pf = lambda s: ite(eq(s, d["p"]), T.Fraction(1), T.Fraction(0))
            arg = []
        for o in E.no_raise(E.method(ag, "step_proba", arg, st=st), ""):
            E.prove("one probability per state", o.st, isinstance(o.val, Arr) and o.val.ndim == 1 and eq(o.val.shape[0], N))
            E.prove("mixture of the transitions under position and policy", o.st, eq(E.rd(o.val, o.st, t), mixture(E, d, st, pf, t)), and_(0 <= t, t < N))
            E.prove("the agent does not move", o.st, eq(E.get(ag, "position", o.st), d["p"]))
            E.prove_same("features unchanged", E.get(m, "features", st), st, E.get(m, "features", o.st), o.st)
            E.prove_same("transition function unchanged", E.get(m, "sas", st), st, E.get(m, "sas", o.st), o.st)
            E.prove_same("history unchanged", E.get(ag, "position_history", st), st, E.get(ag, "position_history", o.st), o.st)
            if given:
                E.prove_same("the given distribution is not modified", arg[0], st, arg[0], o.st)
    return f


def unfit():
    E = Env("AttachedAgent.step_proba(not fitted)")
    d = attached(E)
    st = d["st"]
    st.pc.append(not_(d["fit"]))
    for o in E.raises(E.method(d["agent"], "step_proba", [], st=st), ("AttributeError",), " for an agent that was not fitted"):
        E.prove_same("features unchanged", E.get(d["m"], "features", st), st, E.get(d["m"], "features", o.st), o.st)


def mix_total(name, what, N, K):
    """lemma: a mixture (weights w summing to one over K, components G(k, .) summing to one over N where w(k) != 0) sums to one"""
    E = Env("total probability (%s)" % what)
    N, K = E.int(N), E.int(K)
    w, G = E.fn("w", 1), E.fn("G", 2)
    k = z3.Int("lk")
    E.assume(N >= 1, K >= 1, eq(E.psum(lambda x: w(x), K), 1))
    E.forall([k], implies(and_(0 <= k, k < K, not_(eq(w(k), 0))), eq(E.psum(lambda t: G(k, t), N), 1)))
    S = lambda x: E.psum(lambda t: G(x, t), N)
    c = E.int("c")
    E.prove("one component", E.st, eq(T.mul(w(c), S(c)), w(c)), and_(0 <= c, c < K))
    E = Env("total probability (%s)" % what)
    E.assume(N >= 1, K >= 1, eq(E.psum(lambda x: w(x), K), 1))
    E.forall([k], implies(and_(0 <= k, k < K), eq(T.mul(w(k), S(k)), w(k))))
    E.prove(name, E.st, eq(E.psum(lambda t: E.psum(lambda y: T.mul(w(y), G(y, t)), K), N), 1),
            E.sum_swap(lambda t, y: T.mul(w(y), G(y, t)), N, K), E.sum_eq(lambda x: T.mul(w(x), S(x)), w, K))


def sums_to_one():
    """lemma over the mixture: if the policy's probabilities sum to one wherever the agent may be and the transition
    probabilities of every action it may take sum to one, so does the predicted distribution (mixture over actions, then over states)"""
    mix_total("for one state, the mixture of the actions' next-state distributions sums to one", "actions", "N", "A")
    mix_total("the mixture over states sums to one", "states", "N", "N")


def env_proba():
    E = Env("Environment.step_proba")
    d = fam_env(E)
    st, M, env = d["st"], d["M"], d["env"]
    who = E.int("who")
    N = d["N"]
    R = E.fn("result", 2)
    cur = []

    def h(I, fv, args, kw):
        I.oblige("the agent asked is the named one", and_(isinstance(args[0], FamRef), eq(args[0].idx, who), 0 <= who, who < M))
        I.oblige("with the given position", same_val(kw.get("position", args[1] if len(args) > 1 else None), cur[-1]))
        return I.new_arr((N,), "float", lambda t: R(args[0].idx, t))
    E.I.contracts["maMDP.agents.AttachedAgent.step_proba"] = h
    bad = st.clone()
    bad.pc.append(or_(who < 0, who >= M))
    cur.append(None)
    for o in E.raises(E.method(env, "step_proba", [who], st=bad), ("ValueError",), " for an unknown agent"):
        fam_same_others(E, d, bad, o.st, None, "nothing changes")
    ok = st.clone()
    ok.pc.append(and_(0 <= who, who < M))
    t = E.int("t")
    for given in (False, True):
        E.I.st = ok
        cur.append(E.I.new_arr((N,), "float", E.fn("pos", 1)) if given else None)
        for o in E.no_raise(E.method(env, "step_proba", [who], dict(position=cur[-1]) if given else {}, st=ok), " (call)"):
            E.prove("the agent's distribution is returned", o.st, isinstance(o.val, Arr) and o.val.ndim == 1 and and_(eq(o.val.shape[0], N), eq(E.rd(o.val, o.st, t), R(who, t))), and_(0 <= t, t < N))
            fam_same_others(E, d, ok, o.st, None, "no agent is affected")
            E.prove_same("features unchanged", E.get(d["m"], "features", ok), ok, E.get(d["m"], "features", o.st), o.st)


SECTIONS = [
    ("AttachedAgent.step_proba (current position)", proba(False)),
    ("AttachedAgent.step_proba (given distribution)", proba(True)),
    ("AttachedAgent.step_proba (not fitted)", unfit),
    ("total probability", sums_to_one),
    ("Environment.step_proba", env_proba),
]
