"""C04: transition queries agree with the transition function."""
from .mdps import *


def setup(E, det):
    hold = {}

    def wl(E, N):
        a, hold["f"] = walls_arr(E, N)
        return a
    outs, N, A, F, sf, feat, sas = mdp(E, wl, det=det)
    res = []
    for o in E.no_raise(outs):
        E.slim(o.st)
        res.append((o.st, o.val, N, A, lambda s, a, t, st=o.st, m=o.val: E.rd(E.get(m, "sas", st), st, s, a, t)))
    return res


def any_action(E, P, A, s, t):
    ph, b = [z3.Int("pqs"), z3.Int("pqt")], z3.Int("bqa")
    return E.ctx.reduction("any", ph, [b], T.zb(lt(0, P(ph[0], b, ph[1]))), [A])(s, t)


def any_succ(E, P, N, s, a):
    ph, b = [z3.Int("pqs"), z3.Int("pqa")], z3.Int("bqt")
    return E.ctx.reduction("any", ph, [b], T.zb(lt(0, P(ph[0], ph[1], b))), [N])(s, a)


def next_state(det):
    def f():
        E = Env("MDP.get_next_state (%s)" % ("deterministic" if det else "any"))
        for st, m, N, A, P in setup(E, det):
            s, a, t, u = [E.int(x) for x in "satu"]
            st.pc.append(and_(0 <= s, s < N, 0 <= a, a < A))
            avail = st.clone()
            avail.pc.append(and_(0 <= u, u < N, P(s, a, u) > 0))
            if not det:
                # precondition: the probabilities of an available action sum to 1
                avail.pc.append(eq(E.total(lambda q: P(s, a, q), N), 1))
            outs = E.method(m, "get_next_state", [s, a], st=avail)
            good = [o for o in outs if o.kind == "value"]
            for o in outs:
                if o.kind == "raise":
                    E.ctx.prove(f"{E.name}: no {o.val.cls} for an available action", list(o.st.pc), False)
            if not good:
                raise Unsupported("no normal outcome")
            for o in good:
                E.reach(o.st, " returns")
                E.prove("next state is a state", o.st, and_(le(0, o.val), lt(o.val, N)))
                E.prove("next state has positive probability", o.st, lt(0, P(s, a, o.val)))
                if det:
                    E.prove("next state is the only one the action can lead to, when there is only one", o.st,
                            eq(o.val, u), *[implies(and_(0 <= v, v < N, P(s, a, v) > 0), eq(v, u)) for v in (o.val,)])
                E.prove_same("the MDP is not modified", m, st, m, o.st)
            none = st.clone()
            none.pc.append(T.zb(not_(any_succ(E, P, N, s, a))))
            E.reach(none, " unavailable")
            for o in E.raises(E.method(m, "get_next_state", [s, a], st=none), ("ValueError",), " for an unavailable action"):
                E.prove_same("rejected query leaves the MDP unchanged", m, none, m, o.st)
    return f


def adjacent():
    E = Env("MDP.is_adjacent")
    for st, m, N, A, P in setup(E, None):
        s, a, t = [E.int(x) for x in "sat"]
        st.pc.append(and_(0 <= s, s < N, 0 <= t, t < N))
        for o in E.no_raise(E.method(m, "is_adjacent", [s, t], st=st), " (call)"):
            E.prove("adjacent exactly when some action can lead there", o.st, iff(E.I.truth(o.val), any_action(E, P, A, s, t)))
            E.prove_same("the MDP is not modified", m, st, m, o.st)


def pair_action():
    for rm in (True, False):
        E = Env(f"MDP._state_pair_to_action(return_max={rm})")
        for st, m, N, A, P in setup(E, None):
            s, a, t, b = [E.int(x) for x in "satb"]
            st.pc.append(and_(0 <= s, s < N, 0 <= t, t < N))
            yes = st.clone()
            yes.pc.append(and_(0 <= b, b < A, P(s, b, t) > 0))
            for o in E.no_raise(E.method(m, "_state_pair_to_action", [s, t], dict(return_max=rm), st=yes), " for adjacent states"):
                E.I.st = o.st
                n = E.I.length(o.val)
                rng = and_(0 <= a, a < A)
                if rm:
                    E.prove("one action", o.st, eq(n, 1))
                    r = E.item(o.val, 0, o.st)
                    E.prove("an action", o.st, and_(le(0, r), lt(r, A)))
                    E.prove("most likely action", o.st, and_(P(s, a, t) <= P(s, r, t), P(s, r, t) > 0), rng)
                    E.prove("the first one of those", o.st, implies(eq(P(s, a, t), P(s, r, t)), le(r, a)), rng)
                else:
                    i = E.int("i")
                    r = E.at(o.val, i, o.st)
                    E.prove("only actions that lead there", o.st, and_(le(0, r), lt(r, A), P(s, r, t) > 0), and_(0 <= i, lt(i, n)))
                    ph, bb = [z3.Int("pqx")], z3.Int("bqi")
                    some = E.ctx.reduction("any", ph, [bb], T.zb(eq(E.at(o.val, bb, o.st), ph[0])), [n])(a)
                    E.prove("every action that leads there", o.st, implies(P(s, a, t) > 0, some), rng)
                E.prove_same("the MDP is not modified", m, yes, m, o.st)
            no = st.clone()
            no.pc.append(T.zb(not_(any_action(E, P, A, s, t))))
            E.reach(no, " not adjacent")
            E.raises(E.method(m, "_state_pair_to_action", [s, t], dict(return_max=rm), st=no), ("AttributeError",), " when not adjacent")


def valid_actions():
    E = Env("MDP.state_valid_actions")
    for st, m, N, A, P in setup(E, None):
        s, a, t, i = [E.int(x) for x in "sati"]
        st.pc.append(and_(0 <= s, s < N))
        for o in E.no_raise(E.method(m, "state_valid_actions", [s], st=st), " (call)"):
            E.I.st = o.st
            n = E.I.length(o.val)
            r = E.at(o.val, i, o.st)
            E.prove("only available actions", o.st, and_(le(0, r), lt(r, A), any_succ(E, P, N, s, r)), and_(0 <= i, lt(i, n)))
            ph, bb = [z3.Int("pqx")], z3.Int("bqi")
            some = E.ctx.reduction("any", ph, [bb], T.zb(eq(E.at(o.val, bb, o.st), ph[0])), [n])(a)
            E.prove("every available action", o.st, implies(P(s, a, t) > 0, some), and_(0 <= a, a < A, 0 <= t, t < N))
            E.prove_same("the MDP is not modified", m, st, m, o.st)


def trajectory():
    E = Env("MDP._trajectory_to_state_action")
    for st, m, N, A, P in setup(E, None):
        L = E.int("L")
        st.pc.append(L >= 1)
        tr = E.fn("traj", 1, "int")
        act = E.fn("act", 1, "int")
        k, a = E.int("k"), E.int("a")
        E.forall([k], implies(and_(0 <= k, k < L), and_(0 <= tr(k), tr(k) < N)))
        E.forall([k], implies(and_(0 <= k, k + 1 < L), and_(0 <= act(k), act(k) < A, P(tr(k), act(k), tr(k + 1)) > 0)))
        E.I.st = st
        lst = E.I.new_list(None, L, lambda j: tr(j))
        for o in E.no_raise(E.method(m, "_trajectory_to_state_action", [lst], st=st), " for a connected trajectory"):
            sh = E.shape(o.val, o.st)
            E.prove("one pair per move", o.st, and_(eq(sh[0], T.sub(L, 1)), eq(sh[1], 2)) if len(sh) == 2 else False)
            i = E.int("i")
            r = and_(0 <= i, i + 1 < L, 0 <= a, a < A)
            E.prove("pair names the state", o.st, eq(E.rd(o.val, o.st, i, 0), T.to_float(tr(i))), r)
            v = E.rd(o.val, o.st, i, 1)
            b = E.int("b")
            E.prove("the action recorded is an action leading to the next state, at least as likely as any other", o.st,
                    and_(0 <= b, b < A, P(tr(i), b, tr(i + 1)) > 0, P(tr(i), a, tr(i + 1)) <= P(tr(i), b, tr(i + 1))), r,
                    eq(v, T.to_float(b)))
            E.prove("the action recorded is a whole number", o.st, eq(v, T.to_float(T.to_int(v))), r)


def broken_trajectory():
    E = Env("MDP._trajectory_to_state_action rejects")
    for st, m, N, A, P in setup(E, None):
        L, j = E.int("L"), E.int("j")
        st.pc.append(and_(L >= 2, 0 <= j, j + 1 < L))
        tr = E.fn("traj", 1, "int")
        k = E.int("k")
        E.forall([k], implies(and_(0 <= k, k < L), and_(0 <= tr(k), tr(k) < N)))
        E.I.st = st
        lst = E.I.new_list(None, L, lambda j: tr(j))
        st.pc.append(T.zb(not_(any_action(E, P, A, tr(j), tr(j + 1)))))
        E.reach(st)
        E.raises(E.method(m, "_trajectory_to_state_action", [lst], st=st), ("AttributeError",), " for a trajectory with a gap")


SECTIONS = [
    ("MDP.get_next_state (deterministic)", next_state(True)),
    ("MDP.get_next_state (any MDP)", next_state(None)),
    ("MDP.is_adjacent", adjacent),
    ("MDP._state_pair_to_action", pair_action),
    ("MDP.state_valid_actions", valid_actions),
    ("MDP._trajectory_to_state_action", trajectory),
    ("MDP._trajectory_to_state_action rejects gaps", broken_trajectory),
]
