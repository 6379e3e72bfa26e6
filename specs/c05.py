"""C05: the agent's feature row marks its position."""
from .envs import *


def attach():
    E = Env("AttachedAgent()")
    d = attached(E, more=False)
    st0, st, m = d["pre"], d["post"], d["m"]
    g0, g1 = feat_fn(E, m, st0), feat_fn(E, m, st)
    f, s = E.int("f"), E.int("s")
    Fn = T.add(d["F"], d["n"])
    sh = E.shape(E.get(m, "features", st), st)
    E.prove("attaching adds exactly one feature", st, and_(eq(sh[0], T.add(Fn, 1)), eq(sh[1], d["N"])))
    rng = and_(0 <= f, f < Fn, 0 <= s, s < d["N"])
    E.prove("existing features are unchanged", st, eq(g1(f, s), g0(f, s)), rng)
    E.prove("the new feature is 1 exactly at the agent's state", st, eq(g1(Fn, s), ite(eq(s, d["p0"]), 1, 0)), and_(0 <= s, s < d["N"]))
    E.prove("number of agents", st, eq(E.get(m, "n_agents", st), T.add(d["n"], 1)))
    E.prove("n_features", st, eq(E.get(m, "n_features", st), T.add(Fn, 1)))
    E.prove("the agent is at its state", st, eq(E.get(d["agent"], "position", st), d["p0"]))
    h = E.get(d["agent"], "position_history", st)
    E.I.st = st
    E.prove("the history is the starting state", st, and_(eq(E.I.length(h), 1), eq(E.at(h, 0, st), d["p0"])))
    E.prove_same("transition function unchanged", E.get(m, "sas", st0), st0, E.get(m, "sas", st), st)


def set_position():
    E = Env("AttachedAgent.position")
    d = attached(E)
    st = d["st"]
    q = E.int("q0")
    ok = st.clone()
    ok.pc.append(and_(0 <= q, q < d["N"]))
    for o in E.no_raise(E.setattr(d["agent"], "position", q, st=ok), " (assignment)"):
        one_hot_frame(E, d, ok, o.st, q)
        E.prove("position reads back", o.st, eq(E.get(d["agent"], "position", o.st), q))
        E.prove_same("history unchanged", E.get(d["agent"], "position_history", ok), ok, E.get(d["agent"], "position_history", o.st), o.st)
        E.prove_same("transition function unchanged", E.get(d["m"], "sas", ok), ok, E.get(d["m"], "sas", o.st), o.st)
        E.prove_same("agent otherwise unchanged", d["agent"], clean(E, d, ok, o.st), d["agent"], o.st)
    bad = st.clone()
    bad.pc.append(q >= d["N"])
    for o in E.raises(E.setattr(d["agent"], "position", q, st=bad), ("ValueError",), " for a position outside the MDP"):
        E.prove_same("rejected position leaves agent and MDP unchanged", d["agent"], bad, d["agent"], o.st)


def clean(E, d, st0, st1):
    """st0 with the position and the features of st1"""
    s = st0.clone()
    c0, c1 = s.heap[d["agent"].cid], st1.heap[d["agent"].cid]
    f = dict(c0.fields)
    for k, v in c1.fields.items():
        if k.endswith("__position"):
            f[k] = v
    s.heap[d["agent"].cid] = ObjCell(c0.cls, f)
    a0, a1 = E.get(d["m"], "features", st0), E.get(d["m"], "features", st1)
    s.heap[a0.cid] = ArrCell(st0.heap[a0.cid].shape, st0.heap[a0.cid].dtype, st1.heap[a1.cid].fn)
    return s


def step():
    E = Env("AttachedAgent.step")
    d = attached(E)
    st = d["st"]
    st.pc.append(d["fit"])
    u = E.int("u")
    a = d["pif"](d["p"])
    P = lambda s, a_, t: E.rd(E.get(d["m"], "sas", st), st, s, a_, t)
    st.pc.append(and_(a >= 0, 0 <= u, u < d["N"], P(d["p"], a, u) > 0, eq(E.total(lambda t: P(d["p"], a, t), d["N"]), 1)))
    for o in E.no_raise(E.method(d["agent"], "step", [], st=st), " (step)"):
        pos = E.get(d["agent"], "position", o.st)
        one_hot_frame(E, d, st, o.st, pos)


def remove():
    E = Env("MDP.remove_agent_features")
    d = attached(E)
    st, m = d["st"], d["m"]
    g0 = feat_fn(E, m, st)
    for o in E.no_raise(E.method(m, "remove_agent_features", [], st=st), " (call)"):
        g1 = feat_fn(E, m, o.st)
        f, s = E.int("f"), E.int("s")
        sh = E.shape(E.get(m, "features", o.st), o.st)
        E.prove("only the MDP's own features remain", o.st, and_(eq(sh[0], d["F"]), eq(sh[1], d["N"])))
        E.prove("their values are unchanged", o.st, eq(g1(f, s), g0(f, s)), and_(0 <= f, f < d["F"], 0 <= s, s < d["N"]))
        E.prove("no agents", o.st, eq(E.get(m, "n_agents", o.st), 0))
    E2 = Env("MDP.remove_agent_features without agents")
    outs, N, A, F, sf, feat, sas = mdp(E2)
    for o in E2.no_raise(outs):
        for o2 in E2.no_raise(E2.method(o.val, "remove_agent_features", [], st=o.st), " (call)"):
            E2.prove_same("features unchanged", E2.get(o.val, "features", o.st), o.st, E2.get(o.val, "features", o2.st), o2.st)


def env_set_position():
    E = Env("Environment.set_agent_position")
    d = fam_env(E)
    st, M, N, F, m = d["st"], d["M"], d["N"], d["F"], d["m"]
    who, q = E.int("who"), E.int("q0")
    st.pc.append(and_(0 <= who, who < M))
    ok = st.clone()
    ok.pc.append(and_(0 <= q, q < N))
    g0 = feat_fn(E, m, ok)
    for o in E.no_raise(E.method(d["env"], "set_agent_position", [who, q], st=ok), " (call)"):
        g1 = feat_fn(E, m, o.st)
        f, s = E.int("f"), E.int("s")
        rng = and_(0 <= f, f < T.add(F, M), 0 <= s, s < N)
        E.prove("the agent's row marks the new position, all other rows are unchanged", o.st,
                eq(g1(f, s), ite(eq(f, T.add(F, who)), ite(eq(s, q), 1, 0), g0(f, s))), rng)
        E.prove("position reads back", o.st, eq(fam_pos(E, d, o.st, who), q))
        fam_same_others(E, d, ok, o.st, who, "other agents are unchanged")
    for nm, cond in (("position outside the MDP", and_(0 <= who, who < M, q >= N)),):
        bad = st.clone()
        bad.pc.append(cond)
        for o in E.raises(E.method(d["env"], "set_agent_position", [who, q], st=bad), ("ValueError",), f" ({nm})"):
            E.prove_same("features unchanged", E.get(m, "features", bad), bad, E.get(m, "features", o.st), o.st)
            fam_same_others(E, d, bad, o.st, None, "agents unchanged")
    E = Env("Environment.set_agent_position (unknown agent)")
    d = fam_env(E)
    st = d["st"]
    st.pc.append(or_(who < 0, who >= d["M"]))
    for o in E.raises(E.method(d["env"], "set_agent_position", [who, q], st=st), ("ValueError",), " for an unknown agent"):
        E.prove_same("features unchanged", E.get(d["m"], "features", st), st, E.get(d["m"], "features", o.st), o.st)


def env_construct(K):
    def f():
        E = Env(f"Environment() with {K} agents")
        outs, d = environment(E, K)
        for o in E.no_raise(outs, " (Environment)"):
            st, m, F, N = o.st, d["m"], d["F"], d["N"]
            g0, g1 = feat_fn(E, m, d["pre"]), feat_fn(E, m, st)
            f, s = E.int("f"), E.int("s")
            sh = E.shape(E.get(m, "features", st), st)
            E.prove("one feature per agent is added", st, and_(eq(sh[0], T.add(F, K)), eq(sh[1], N)))
            rng = and_(0 <= s, s < N)
            E.prove("the MDP's own features are unchanged", st, eq(g1(f, s), g0(f, s)), and_(0 <= f, f < F), rng)
            for k in range(K):
                E.prove(f"row of agent {k} marks its starting state", st, eq(g1(T.add(F, k), s), ite(eq(s, d["starts"][k]), 1, 0)), rng)
            ags = E.get(o.val, "agents", st)
            items = st.heap[ags.cid].items
            E.prove("every agent is attached, in order", st, [k for k, _ in items] == d["names"])
            for k in range(K):
                E.prove(f"agent {k} is at its starting state", st, eq(E.get(items[k][1], "position", st), d["starts"][k]))
            E.prove("n_agents", st, and_(eq(E.get(o.val, "n_agents", st), K), eq(E.get(m, "n_agents", st), K)))
            # building a second environment on the same MDP replaces the agents
            o2 = None
            E.slim(st)
            # the same agents at new positions
            np_ = [E.int(f"np{k}") for k in range(K)]
            st.pc.append(and_(*[and_(0 <= x, x < N) for x in np_]))
            E.I.st = st
            its = []
            for k, (nm, a) in enumerate(st.heap[[c for c in [d["dict"]]][0].cid].items):
                its.append((nm, (np_[k], a[1], a[2])))
            dd = DictRef(E.I.alloc(DictCell(its)))
            for o2 in E.no_raise(E.call("maMDP.environments.Environment", [m, dd], st=st), " (second environment on the MDP)"):
                g2 = feat_fn(E, m, o2.st)
                sh = E.shape(E.get(m, "features", o2.st), o2.st)
                E.prove("agents of the earlier environment are replaced", o2.st, and_(eq(sh[0], T.add(F, K)), eq(sh[1], N)))
                E.prove("the MDP's own features are unchanged (second environment)", o2.st, eq(g2(f, s), g0(f, s)), and_(0 <= f, f < F), rng)
                for k in range(K):
                    E.prove(f"row of agent {k} marks its starting state (second environment)", o2.st, eq(g2(T.add(F, k), s), ite(eq(s, np_[k]), 1, 0)), rng)
    f.bounded = f"number of agents = {K}"
    return f


SECTIONS = [
    ("Agent attachment", attach),
    ("AttachedAgent.position assignment", set_position),
    ("AttachedAgent.step", step),
    ("MDP.remove_agent_features", remove),
    ("Environment.set_agent_position", env_set_position),
    ("Environment construction (1 agent)", env_construct(1)),
    ("Environment construction (2 agents)", env_construct(2)),
    ("Environment construction (3 agents)", env_construct(3)),
]
