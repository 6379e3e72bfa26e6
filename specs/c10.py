"""C10: value iteration returns Bellman-consistent values and action values."""
from .base import *

DP = "maMDP.algorithms.dynamic_programming."


def sizes(E):
    N, A = E.int("N"), E.int("A")
    E.assume(N >= 1, A >= 1)
    return N, A


def backup(E, N, sas, r, g, v):
    """expected reward + discounted value of taking a in s, when the value of state t is v(t)"""
    def f(s, a):
        return E.psum(lambda t: T.mul(sas(s, a, t), T.add(r(t), T.mul(g, v(t)))), N)
    return f


def avail(E, N, sas, s, a):
    return lt(0, E.psum(lambda t: sas(s, a, t), N))


def some_avail(E, N, A, sas, s, cond=None):
    """some available action of s (that satisfies cond)"""
    ps, b, t = z3.Int("ps_av"), z3.Int("ba_av"), z3.Int("bt_av")
    tot = E.ctx._sum_term([ps, b], t, sas(ps, b, t), N)
    c = lt(0, tot)
    if cond is not None:
        c = and_(c, cond(ps, b))
    return E.ctx.reduction("any", [ps], [b], T.zb(c), [A])(s)


def sweep(soft):
    def run():
        E = Env("state_value_iterator" + (" (soft)" if soft else ""))
        N, A = sizes(E)
        sas, r, old = E.fn("sas", 3), E.fn("reward", 1), E.fn("old", 1)
        g, d0 = E.real("discount"), E.real("delta0")
        P = E.arr("sas", (N, A, N), fn=sas)
        R = E.arr("reward", (N,), fn=r)
        V = E.arr("values", (N,), fn=old)
        outs = E.call(DP + "state_value_iterator", [V, d0, R, g, P], dict(soft=soft), st=E.st)
        s, a, t = E.int("s"), E.int("a"), E.int("t")
        rs, ra = and_(0 <= s, s < N), and_(0 <= a, a < A)
        for o in E.no_raise(outs):
            vals, delta, q = o.val
            E.prove("shapes", o.st, and_(vals.ndim == 1, q.ndim == 2, eq(vals.shape[0], N), eq(q.shape[0], N), eq(q.shape[1], A)))
            new = lambda x: E.rd(vals, o.st, x)
            Q = lambda x, y: E.rd(q, o.st, x, y)
            mid = lambda x: ite(x < s, new(x), old(x))
            E.prove("an action value is the expected reward plus discounted value of the next state (states already swept with their new value)", o.st,
                    eq(Q(s, a), backup(E, N, sas, r, g, mid)(s, a)), rs, ra)
            if not soft:
                E.prove("the value of a state is at least the value of each available action", o.st, le(Q(s, a), new(s)), rs, ra, avail(E, N, sas, s, a))
                E.prove("and is the value of one of them", o.st, some_avail(E, N, A, sas, s, lambda x, y: eq(new(x), Q(x, y))), rs, some_avail(E, N, A, sas, s))
            else:
                ex = lambda y: ite(avail(E, N, sas, s, y), T.EXP(T.zr(Q(s, y))), T.Fraction(0))
                E.prove("the value of a state is the log of the sum of the exponentials of its available actions' values", o.st,
                        eq(new(s), T.LOG(T.zr(T.add(E.psum(ex, A), T.norm(1e-200))))), rs, some_avail(E, N, A, sas, s))
            E.prove("a state without actions has value 0", o.st, eq(new(s), 0), rs, not_(some_avail(E, N, A, sas, s)))
            E.prove("delta covers the change of every value", o.st, and_(le(T.abs_(T.sub(old(s), new(s))), delta), le(d0, delta)), rs)
            E.prove_same("rewards unchanged", R, E.st, R, o.st)
            E.prove_same("transition function unchanged", P, E.st, P, o.st)
    return run


def ghosts(E):
    """W(k, t): value of state t after k sweeps; Q(k, s, a), D(k): action values and change of sweep k"""
    return E.fn("W", 2), E.fn("Qk", 3), E.fn("D", 1)


def solve(soft):
    """repeated sweeps, from zero, until the change is below the tolerance or the number of sweeps is used up"""
    def run():
        E = Env("solve_value_iteration" + (" (soft)" if soft else ""))
        N, A = sizes(E)
        F, mi = E.int("F"), E.int("max_iter")
        g, tol = E.real("discount"), E.real("tol")
        E.assume(F >= 1)
        sas, rf, feat = E.fn("sas", 3), E.fn("rf", 1), E.fn("features", 2)
        j = z3.Int("nn_s"), z3.Int("nn_a"), z3.Int("nn_t")
        E.forall(list(j), sas(*j) >= 0)
        P = E.arr("sas", (N, A, N), fn=sas)
        RF = E.arr("rf", (F,), fn=rf)
        X = E.arr("features", (F, N), fn=feat)
        W, Qk, D = ghosts(E)
        E.forall([j[0]], eq(W(0, j[0]), 0))
        gh = E.obj(DP + "ValueIteration", sweeps=0)
        s, a, t = E.int("s"), E.int("a"), E.int("t")
        rs, ra, rt = and_(0 <= s, s < N), and_(0 <= a, a < A), and_(0 <= t, t < N)

        def h(I, fv, args, kw):
            names = ["values", "delta", "reward", "discount", "sas", "soft"]
            got = dict(zip(names, args))
            got.update(kw)
            k = I.st.heap[gh.cid].fields["sweeps"]
            I.oblige("a sweep starts from the values of the previous one", implies(rt, eq(E.rd(got["values"], I.st, t), W(k, t))))
            I.oblige("the change is measured from zero", eq(got["delta"], 0))
            I.oblige("the reward of a state is the reward function applied to its features", implies(rt, eq(E.rd(got["reward"], I.st, t), E.psum(lambda f: T.mul(rf(f), feat(f, t)), F))))
            I.oblige("with the given discount", eq(got["discount"], g))
            I.oblige("with the given transition function", implies(and_(rs, ra, rt), eq(E.rd(got["sas"], I.st, s, a, t), sas(s, a, t))))
            I.oblige("the kind of sweep asked for", eq(got.get("soft", False), soft))
            v = got["values"]
            if v.axes is not None:
                raise Unsupported("sweep over a view")
            I.st.heap[gh.cid] = ObjCell(I.st.heap[gh.cid].cls, dict(sweeps=T.add(k, 1)))
            I.arr_write(v, lambda x: True, lambda x: W(T.add(k, 1), x))
            q = I.new_arr((N, A), "float", lambda x, y: Qk(k, x, y))
            return (v, D(k), q)
        E.I.contracts[DP + "state_value_iterator"] = h
        bad = E.st.clone()
        bad.pc.append(and_(mi >= 1, or_(g <= 0, g >= 1)))
        E.raises(E.call(DP + "solve_value_iteration", [RF, X, mi, g, P, tol], dict(soft=soft), st=bad), ("AssertionError",), " for a discount outside (0, 1)")
        ok = E.st.clone()
        ok.pc.append(and_(mi >= 1, 0 < g, g < 1))
        for o in E.no_raise(E.call(DP + "solve_value_iteration", [RF, X, mi, g, P, tol], dict(soft=soft), st=ok)):
            v, q = o.val
            m = o.st.heap[gh.cid].fields["sweeps"]
            E.prove("at least one sweep, at most the given number", o.st, and_(1 <= m, m <= mi))
            E.prove("shapes", o.st, and_(v.ndim == 1, q.ndim == 2, eq(v.shape[0], N), eq(q.shape[0], N), eq(q.shape[1], A)))
            E.prove("the values are those of the last sweep", o.st, eq(E.rd(v, o.st, t), W(m, t)), rt)
            x = E.rd(q, o.st, s, a)
            av = avail(E, N, sas, s, a)
            E.prove("the action values are those of the last sweep", o.st, and_(T.isfinite(x), eq(x, Qk(T.sub(m, 1), s, a))), rs, ra, av)
            E.prove("an unavailable action has value minus infinity", o.st, T.isninf(x), rs, ra, not_(av))
            E.prove("stops before the given number only when the values have converged", o.st, or_(D(T.sub(m, 1)) < tol, eq(m, mi)))
            for nm, ar in (("transition function", P), ("reward function", RF), ("features", X)):
                E.prove_same(nm + " unchanged", ar, ok, ar, o.st)
    return run


def consistent():
    """lemma over the two contracts: where the values have converged, the action values are Bellman backups of the returned
    values up to discount * tolerance"""
    E = Env("Bellman consistency")
    N, A = sizes(E)
    sas, r, old, new = E.fn("sas", 3), E.fn("reward", 1), E.fn("old", 1), E.fn("new", 1)
    g, tol, delta = E.real("discount"), E.real("tol"), E.real("delta")
    s, a, q = E.int("s"), E.int("a"), E.real("q")
    t = z3.Int("lt")
    E.assume(0 < g, g < 1, delta < tol, 0 <= s, s < N, 0 <= a, a < A)
    E.forall([t], implies(and_(0 <= t, t < N), and_(sas(s, a, t) >= 0, le(T.abs_(T.sub(old(t), new(t))), delta))))
    mid = lambda x: ite(x < s, new(x), old(x))
    E.assume(eq(q, backup(E, N, sas, r, g, mid)(s, a)))
    mass = E.psum(lambda x: sas(s, a, x), N)
    fin = backup(E, N, sas, r, g, new)(s, a)
    one = lambda v: (lambda x: T.mul(sas(s, a, x), T.add(r(x), T.mul(g, v(x)))))
    P = lambda x: sas(s, a, x)
    gd = T.mul(g, delta)
    up = E.sum_le(one(mid), [(1, one(new)), (gd, P)], N)
    lo = E.sum_le(one(new), [(1, one(mid)), (gd, P)], N)
    E.prove("action value at most the backup of the final values + discount * tolerance", E.st, le(q, T.add(fin, T.mul(gd, mass))), up)
    E.prove("action value at least the backup of the final values - discount * tolerance", E.st, le(fin, T.add(q, T.mul(gd, mass))), lo)


def fit():
    E = Env("ValueIteration._fit")
    from .mdps import mdp
    outs, N, A, F, sf, feat, sas = mdp(E)
    seen = []
    g, tol, mi = E.real("discount"), E.real("tol"), E.int("max_iter")
    v, q = E.fn("v", 1), E.fn("q", 2, "xfloat")

    def h(I, fv, args, kw):
        names = ["reward_function", "features", "max_iter", "discount", "sas", "tol", "soft"]
        got = dict(zip(names, args))
        got.update(kw)
        seen.append((got, I.st.clone()))
        return (I.new_arr((N,), "float", v), I.new_arr((N, A), "float", q))
    E.I.contracts[DP + "solve_value_iteration"] = h
    rf = E.fn("rf", 1)
    for o in E.no_raise(outs):
        st, m = E.slim(o.st), o.val
        for al in E.no_raise(E.call(DP + "ValueIteration", [g, tol, mi], st=st)):
            E.I.st = al.st
            RF = E.I.new_arr((F,), "float", rf)
            p, nm = E.int("p"), None
            for o2 in E.no_raise(E.method(al.val, "_fit", [m, RF, p, nm], st=al.st)):
                E.prove("solved once", o2.st, len(seen) == 1)
                got, s1 = seen[-1]
                k, s, a, t = E.int("k"), E.int("s"), E.int("a"), E.int("t")
                f0 = E.get(m, "features", st)
                F1, N1 = f0.shape
                E.prove("with the agent's reward function", o2.st, eq(E.rd(got["reward_function"], s1, k), rf(k)), and_(0 <= k, k < F))
                E.prove_same("with the current features", f0, st, got["features"], s1)
                E.prove_same("with the current transition function", E.get(m, "sas", st), st, got["sas"], s1)
                E.prove("with the given discount, tolerance and number of sweeps", o2.st,
                        and_(eq(got["discount"], g), eq(got["tol"], tol), eq(got["max_iter"], mi), eq(got.get("soft", False), False)))
                rng = and_(0 <= s, s < N, 0 <= a, a < A)
                E.prove("values and action values are returned", o2.st,
                        and_(eq(E.rd(o2.val[0], o2.st, s), v(s)), ident(E.rd(o2.val[1], o2.st, s, a), q(s, a))), rng)
                E.prove_same("the MDP is not changed", m, st, m, o2.st)


SECTIONS = [
    ("state_value_iterator", sweep(False)),
    ("state_value_iterator (soft)", sweep(True)),
    ("solve_value_iteration", solve(False)),
    ("solve_value_iteration (soft)", solve(True)),
    ("Bellman consistency", consistent),
    ("ValueIteration._fit", fit),
]
