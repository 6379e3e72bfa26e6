"""C07: reset restores the initial situation."""
from .envs import *


def start_field(st, d):
    c = [k for k in st.heap[d["fam"]].fields if k.endswith("starting_position")]
    if len(c) != 1:
        raise Unsupported("no attribute holds the starting position")
    return c[0]


def restored(E, d, st, start, init, what):
    """every agent is at its start with a one-element history, the features are init"""
    m, N, F, M = d["m"], d["N"], d["F"], d["M"]
    k, f, s = E.int("k"), E.int("f"), E.int("s")
    hyp = and_(0 <= k, k < M)
    E.prove(f"every agent is back in its starting state{what}", st, eq(fam_pos(E, d, st, k), start(k)), hyp)
    E.I.st = st
    h = E.I.get_fam(d["agent"](k), "position_history")
    ln, el = st.heap[h.lcid].fn(k), st.heap[h.ecid].fn(k, 0)
    E.prove(f"every history holds just the starting state{what}", st, and_(eq(ln, 1), eq(el, start(k))), hyp)
    g1 = feat_fn(E, m, st)
    sh = E.shape(E.get(m, "features", st), st)
    E.prove(f"number of features{what}", st, and_(eq(sh[0], T.add(F, M)), eq(sh[1], N)))
    E.prove(f"every feature value is back to its initial value{what}", st, eq(g1(f, s), init(f, s)), and_(0 <= f, f < T.add(F, M), 0 <= s, s < N))


def reset():
    E = Env("Environment.reset")
    d = fam_env(E)
    st, m, N, F, M = d["st"], d["m"], d["N"], d["F"], d["M"]
    sp = d["fields"][start_field(st, d)]
    init = d["feat_init"]
    # invariant of an environment (established at construction, below): the saved features mark every agent at its start
    k, s = z3.Int("iv_k"), z3.Int("iv_s")
    E.forall([k, s], implies(and_(0 <= k, k < M), eq(init(T.add(F, k), s), ite(eq(s, sp(k)), T.Fraction(1), T.Fraction(0)))))
    for o in E.no_raise(E.method(d["env"], "reset", [], st=st), " (reset)"):
        st1 = E.slim(o.st)
        restored(E, d, st1, sp, init, "")
        E.prove_same("transition function unchanged", E.get(m, "sas", st), st, E.get(m, "sas", st1), st1)
        # whatever happens to the features and positions afterwards, the next reset restores the same
        havoc(E, st1, E.get(m, "features", st1), "feat_later")
        for nm, fd in st1.heap[d["fam"]].fields.items():
            if nm.endswith("__position") and fd[0] == "s":
                c = st1.heap[fd[1]]
                f2 = E.fn("later_" + nm, 1, "int")
                i = z3.Int("lt_i")
                E.forall([i], and_(f2(i) >= 0, f2(i) < N))
                st1.heap[fd[1]] = ArrCell(c.shape, c.dtype, f2)
        for o2 in E.no_raise(E.method(d["env"], "reset", [], st=st1), " (second reset)"):
            restored(E, d, E.slim(o2.st), sp, init, " (second reset)")


def later(E, d, env, st, op, who):
    """one operation on the environment in state st"""
    x = z3.Int(E.ctx.name("arg"))
    st = E.slim(st.clone())
    st.pc.append(and_(0 <= x, x < d["N"]))
    if op == "set_agent_position":
        return E.no_raise(E.method(env, op, [d["names"][who], x], st=st), f" ({op})")[0].st
    if op == "consume":
        E.I.st = st
        n, cf = z3.Int(E.ctx.name("n")), E.fn("cidx", 1, "int")
        j = z3.Int(E.ctx.name("cj"))
        E.forall([j], and_(cf(j) >= 0, cf(j) < d["F"] + d["K"]))
        st.pc.append(n >= 0)
        lst = E.I.new_list(None, n, lambda k: cf(k))
        return E.no_raise(E.method(d["m"], "consume_features", [lst, x], st=st), " (consume)")[0].st


def history(K):
    def f():
        E = Env(f"reset after use, {K} agents")
        outs, d = environment(E, K)
        o = E.no_raise(outs, " (Environment)")[0]
        st, env, m, F, N = E.slim(o.st), o.val, d["m"], d["F"], d["N"]
        g0 = feat_fn(E, m, st)
        s, f_ = E.int("s"), E.int("f")
        cur = st
        for rnd in ("", " (second time)"):
            for w in range(K):
                cur = later(E, d, env, cur, "set_agent_position", w)
            cur = later(E, d, env, cur, "consume", 0)
            cur = later(E, d, env, cur, "set_agent_position", K - 1)
            cur = E.no_raise(E.method(env, "reset", [], st=cur), " (reset)")[0].st
            cur = E.slim(cur)
            g1 = feat_fn(E, m, cur)
            E.prove("features are those at the creation of the environment" + rnd, cur, eq(g1(f_, s), g0(f_, s)),
                    and_(0 <= f_, f_ < T.add(F, K), 0 <= s, s < N))
            items = cur.heap[E.get(env, "agents", cur).cid].items
            for k in range(K):
                ag = items[k][1]
                E.prove(f"agent {k} is back in its starting state" + rnd, cur, eq(E.get(ag, "position", cur), d["starts"][k]))
                h = E.get(ag, "position_history", cur)
                E.I.st = cur
                E.prove(f"history of agent {k} holds just its starting state" + rnd, cur, and_(eq(E.I.length(h), 1), eq(E.at(h, 0, cur), d["starts"][k])))
    f.bounded = f"number of agents = {K}"
    return f


def step_keeps_start():
    """moving an agent does not change where reset takes it, nor the features that reset restores"""
    E = Env("AttachedAgent.step and reset")
    d = attached(E)
    st, m = d["st"], d["m"]
    st.pc.append(d["fit"])
    u = E.int("u")
    a = d["pif"](d["p"])
    P = lambda s, a_, t: E.rd(E.get(m, "sas", st), st, s, a_, t)
    st.pc.append(and_(a >= 0, 0 <= u, u < d["N"], P(d["p"], a, u) > 0, eq(E.total(lambda t: P(d["p"], a, t), d["N"]), 1)))
    o = E.no_raise(E.method(d["agent"], "step", [], st=st), " (step)")[0]
    s1 = E.slim(o.st)
    ra = E.no_raise(E.method(d["agent"], "reset", [], st=s1), " (agent reset)")[0].st
    E.prove("after a step, reset returns to the state the agent was attached in", ra, eq(E.get(d["agent"], "position", ra), d["p0"]))
    h = E.get(d["agent"], "position_history", ra)
    E.I.st = ra
    E.prove("history", ra, and_(eq(E.I.length(h), 1), eq(E.at(h, 0, ra), d["p0"])))
    r0 = E.no_raise(E.method(m, "reset", [], st=E.slim(st.clone())), " (MDP reset)")[0].st
    r1 = E.no_raise(E.method(m, "reset", [], st=E.slim(ra)), " (MDP reset after the step)")[0].st
    f, s = E.int("f"), E.int("s")
    E.prove("the features that reset restores do not depend on the step", r1, eq(feat_fn(E, m, r0)(f, s), feat_fn(E, m, r1)(f, s)),
            and_(0 <= f, f < T.add(d["F"], d["M"]), 0 <= s, s < d["N"]))


SECTIONS = [
    ("Environment.reset", reset),
    ("AttachedAgent.step, then reset", step_keeps_start),
    ("construction, use, reset (1 agent)", history(1)),
    ("construction, use, reset (2 agents)", history(2)),
    ("construction, use, reset (3 agents)", history(3)),
]
