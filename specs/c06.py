"""C06: consumption removes exactly the consumed features and counts them."""
from .envs import *


def member(E, n, f, x):
    """exists j < n: f(j) == x"""
    ph, b = [z3.Int("pqx")], z3.Int("bqj")
    return E.ctx.reduction("any", ph, [b], T.zb(eq(f(b), ph[0])), [n])(x)


def consume():
    E = Env("MDP.consume_features")
    outs, N, A, F, sf, feat, sas = mdp(E)
    for o in E.no_raise(outs):
        st, m = E.slim(o.st), o.val
        n, s0 = E.int("n"), E.int("s0")
        st.pc.append(and_(n >= 0, 0 <= s0, s0 < N))
        cf = E.fn("idx", 1, "int")
        j = z3.Int("idx_j")
        E.forall([j], and_(cf(j) >= 0, cf(j) < F))
        E.I.st = st
        lst = E.I.new_list(None, n, lambda k: cf(k))
        g0 = feat_fn(E, m, st)
        for o2 in E.no_raise(E.method(m, "consume_features", [lst, s0], st=st), " (call)"):
            g1 = feat_fn(E, m, o2.st)
            f, s = E.int("f"), E.int("s")
            rng = and_(0 <= f, f < F, 0 <= s, s < N)
            hit = lambda f: and_(member(E, n, cf, f), lt(0, g0(f, s0)))
            E.prove("exactly the named features that are present in the state are removed, nothing else changes", o2.st,
                    eq(g1(f, s), ite(and_(eq(s, s0), hit(f)), 0, g0(f, s))), rng)
            sh = E.shape(o2.val, o2.st)
            E.prove("one count per feature", o2.st, eq(sh[0], F) if len(sh) == 1 else False)
            E.prove("every feature removed is counted once, no other is counted", o2.st, eq(E.rd(o2.val, o2.st, f), ite(hit(f), 1, 0)), rng)
            E.prove_same("transition function unchanged", E.get(m, "sas", st), st, E.get(m, "sas", o2.st), o2.st)


def step_contract(E, d):
    """contract of AttachedAgent.step (C05, C08): the agent is in some state of the MDP, its history ends with it, its feature
    row marks it; everything else is unchanged"""
    def h(I, fv, args, kw):
        ag = args[0]
        t = I.ctx.choice(I, "next", z3.IntSort())
        I.assume(and_(le(0, t), lt(t, d["N"])), "step")
        I.set_fam(ag, pos_field(I, d), t)
        I.take([Outcome(x.st, "normal", x.val) if x.kind == "value" else x for x in
                I.call(BoundV(I.st.heap[d["m"].cid].cls.lookup("update_agent_feature"), d["m"]), [ag.idx, t], {})])
        I.take([Outcome(x.st, "normal", x.val) if x.kind == "value" else x for x in I.call(MethV(I.getattr(ag, "position_history"), "append"), [t], {})])
        E.steps = getattr(E, "steps", []) + [t]
        return None
    E.I.contracts["maMDP.agents.AttachedAgent.step"] = h


def pos_field(I, d):
    c = [k for k in I.st.heap[d["fam"]].fields if k.endswith("__position") or k == "_position"]
    if len(c) != 1:
        raise Unsupported("position attribute")
    return c[0]


def env_step():
    E = Env("Environment.step")
    d = fam_env(E)
    step_contract(E, d)
    st, M, N, F, m = d["st"], d["M"], d["N"], d["F"], d["m"]
    who = E.int("who")
    st.pc.append(and_(0 <= who, who < M))
    ln, cf = d["fields"]["consumes"]
    con = d["fields"]["consumed"]
    g0 = feat_fn(E, m, st)
    for o in E.no_raise(E.method(d["env"], "step", [who], st=st), " (step)"):
        g1 = feat_fn(E, m, o.st)
        t = fam_pos(E, d, o.st, who)
        f, s = E.int("f"), E.int("s")
        rng = and_(0 <= f, f < T.add(F, M), 0 <= s, s < N)
        # feature values after the move, before consumption
        gm = lambda f, s: ite(eq(f, T.add(F, who)), ite(eq(s, t), 1, 0), g0(f, s))
        hit = lambda f: and_(member(E, ln(who), lambda j: cf(who, j), f), lt(0, gm(f, t)))
        E.prove("the step removes exactly the features the agent consumes in its new state", o.st,
                eq(g1(f, s), ite(and_(eq(s, t), hit(f)), 0, gm(f, s))), rng)
        E.I.st = o.st
        c1 = E.I.get_fam(d["agent"](who), "consumed")
        E.prove("the agent's counts grow by one for each feature consumed", o.st,
                eq(E.rd(c1, o.st, f), T.add(con(who, f), ite(hit(f), T.Fraction(1), T.Fraction(0)))), rng)
        fam_same_others(E, d, st, o.st, who, "other agents (counts, positions, histories) are unchanged")
        E.prove("n_steps grows by one", o.st, eq(E.get(d["env"], "n_steps", o.st), T.add(E.int("n_steps0"), 1)))


SECTIONS = [
    ("MDP.consume_features", consume),
    ("Environment.step: consumption", env_step),
]
