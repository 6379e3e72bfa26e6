"""C08: agents move along real transitions, as their policy says, and only the named agent moves."""
from .envs import *
from .c06 import pos_field


def agent_step():
    E = Env("AttachedAgent.step")
    d = attached(E)
    st, m, ag, p = d["st"], d["m"], d["agent"], d["p"]
    a = d["pif"](p)
    P = lambda s, a_, t: E.rd(E.get(m, "sas", st), st, s, a_, t)
    # not fit
    bad = st.clone()
    bad.pc.append(not_(d["fit"]))
    for o in E.raises(E.method(ag, "step", [], st=bad), ("AttributeError",), " for an agent that has not been fit"):
        E.prove_same("an agent that has not been fit does not move", ag, bad, ag, o.st, skip=(".pi",))
    # no action known
    bad = st.clone()
    bad.pc.append(and_(d["fit"], a < 0))
    for o in E.raises(E.method(ag, "step", [], st=bad), ("ValueError",), " where there is no action"):
        for nm in ("position", "position_history"):
            E.prove_same("an agent without an action does not move", E.get(ag, nm, bad), bad, E.get(ag, nm, o.st), o.st)
        E.prove_same("features unchanged", E.get(m, "features", bad), bad, E.get(m, "features", o.st), o.st)
    # a step
    u = E.int("u")
    ok = st.clone()
    ok.pc.append(and_(d["fit"], a >= 0, 0 <= u, u < d["N"], P(p, a, u) > 0, eq(E.total(lambda t: P(p, a, t), d["N"]), 1)))
    for o in E.no_raise(E.method(ag, "step", [], st=ok), " (step)"):
        t = E.get(ag, "position", o.st)
        E.prove("the agent moves to a state that its chosen action can reach", o.st, and_(0 <= t, t < d["N"], P(p, a, t) > 0))
        h = E.get(ag, "position_history", o.st)
        E.I.st = o.st
        j = E.int("j")
        E.prove("the history grows by one", o.st, eq(E.I.length(h), T.add(d["hl"], 1)))
        E.prove("the history ends with the new state, the rest is unchanged", o.st,
                eq(E.at(h, j, o.st), ite(eq(j, d["hl"]), t, d["hf"](j))), and_(0 <= j, j <= d["hl"]))
        pi, pip = E.get(ag, "pi", o.st), E.get(ag, "pi_p", o.st)
        s, b = E.int("s"), E.int("b")
        rng = and_(0 <= s, s < d["N"], 0 <= b, b < d["A"])
        E.prove("the policy used is the selector's policy for the agent's action values", o.st, and_(eq(E.rd(pi, o.st, s), d["pif"](s)), ident(E.rd(pip, o.st, s, b), d["pipf"](s, b))), rng)
        E.prove_same("transition function unchanged", E.get(m, "sas", ok), ok, E.get(m, "sas", o.st), o.st)
        E.prove_same("action values unchanged", d["algo"], ok, d["algo"], o.st, skip=("._agent",))


def selector_args():
    """the policy is computed from the algorithm's action values"""
    E = Env("AttachedAgent.get_policy")
    d = attached(E, contracts=False)
    st, ag = d["st"], d["agent"]
    seen = []
    cls = E.I.get("maMDP.algorithms.action_selection.MaxActionSelector")
    N, A = d["N"], d["A"]
    for nm, mk in (("get_pi", lambda I: I.new_arr((N,), "int", d["pif"])), ("get_pi_p", lambda I: I.new_arr((N, A), "float", d["pipf"]))):
        fv = cls.lookup(nm)

        def h(I, fv, args, kw, nm=nm, mk=mk):
            q = args[1] if len(args) > 1 else kw.get("q_values")
            seen.append((nm, q, I.st))
            return mk(I)
        E.I.contracts[fv.qual] = h
    for o in E.no_raise(E.method(ag, "get_policy", [], st=st), " (get_policy)"):
        E.prove("both policies are computed", o.st, sorted({x[0] for x in seen}) == ["get_pi", "get_pi_p"])
        for nm, q, s1 in seen:
            E.prove_same(f"{nm} receives the algorithm's action values", d["q"], st, q, s1)


def agent_fit():
    E = Env("AttachedAgent.fit")
    d = attached(E)
    st, ag, m = d["st"], d["agent"], d["m"]
    N, A = d["N"], d["A"]
    seen = []
    q2 = E.fn("q2", 2, "xfloat")

    def h(I, fv, args, kw):
        a = list(args[1:])
        names = ["mdp", "reward_function", "position", "n_moves"]
        got = dict(zip(names, a))
        got.update(kw)
        seen.append((got, I.st.clone()))
        I.st.heap[args[0].cid] = ObjCell(I.st.heap[args[0].cid].cls, dict(I.st.heap[args[0].cid].fields, q_values=I.new_arr((N, A), "float", q2), fit_complete=True))
        return None
    fv = E.I.get("maMDP.algorithms.base.Algorithm").lookup("fit")
    E.I.contracts[fv.qual] = h
    E.I.st = st
    nm = E.I.new_list(None, E.int("turns"), lambda j: j)
    st.pc.append(E.int("turns") >= 0)
    for o in E.no_raise(E.method(ag, "fit", [], dict(n_moves=nm), st=st), " (fit)"):
        E.prove("the algorithm is run once", o.st, len(seen) == 1)
        got, s1 = seen[0]
        E.prove("for this MDP", o.st, same_val(got.get("mdp"), m))
        E.prove_same("for the agent's reward function", d["rf"], st, got.get("reward_function"), s1)
        E.prove("from the agent's position", o.st, eq(got.get("position"), d["p"]))
        E.prove("with the given numbers of moves", o.st, same_val(got.get("n_moves"), nm))
        s = E.int("s")
        pi = E.get(ag, "pi", o.st)
        E.prove("the policy is updated", o.st, isinstance(pi, Arr) and eq(E.rd(pi, o.st, s), d["pif"](s)), and_(0 <= s, s < N))
        E.prove("the agent does not move", o.st, eq(E.get(ag, "position", o.st), d["p"]))
        E.prove_same("features unchanged", E.get(m, "features", st), st, E.get(m, "features", o.st), o.st)
        E.prove_same("history unchanged", E.get(ag, "position_history", st), st, E.get(ag, "position_history", o.st), o.st)


def base_fit():
    """Algorithm.fit: inputs are checked, outputs are stored"""
    for bad in (None, "type", "len"):
        E = Env("Algorithm.fit")
        outs, N, A, F, sf, feat, sas = mdp(E)
        o = E.no_raise(outs)[0]
        st, m = E.slim(o.st), o.val
        al = E.no_raise(E.call("maMDP.algorithms.base.Null", [], st=st), " (Null)")[0]
        st = al.st
        E.I.st = st
        pos = E.int("p")
        st.pc.append(and_(0 <= pos, pos < N))
        R = E.int("R")
        rf = E.I.new_arr((R,), "float", E.fn("rf", 1))
        v, q = E.fn("v", 1, "xfloat"), E.fn("q", 2, "xfloat")
        seen = []

        def h(I, fv, args, kw):
            seen.append((args, I.st.clone()))
            return (I.new_arr((N,), "float", v), I.new_arr((N, A), "float", q))
        E.I.contracts["maMDP.algorithms.base.Null._fit"] = h
        if bad == "type":
            E.I.st = st
            rf = E.I.new_list(None, R, lambda j: j)
            for o in E.raises(E.method(al.val, "fit", [m, rf, pos], st=st), ("TypeError",), " for a reward function that is not an array"):
                E.prove_same("algorithm unchanged", al.val, st, al.val, o.st)
            continue
        st.pc.append(ne(R, F) if bad else eq(R, F))
        if bad:
            st.pc.append(R >= 0)
            for o in E.raises(E.method(al.val, "fit", [m, rf, pos], st=st), ("AttributeError",), " for a reward function of the wrong length"):
                E.prove_same("algorithm unchanged", al.val, st, al.val, o.st)
            continue
        s, a = E.int("s"), E.int("a")
        rng = and_(0 <= s, s < N, 0 <= a, a < A)
        for o in E.no_raise(E.method(al.val, "fit", [m, rf, pos], st=st), " (fit)"):
            E.prove("fit is recorded as complete", o.st, eq(E.get(al.val, "fit_complete", o.st), True))
            E.prove("values are stored", o.st, ident(E.rd(E.get(al.val, "values", o.st), o.st, s), v(s)), rng)
            E.prove("action values are stored", o.st, ident(E.rd(E.get(al.val, "q_values", o.st), o.st, s, a), q(s, a)), rng)
            args, s1 = seen[0]
            E.prove("the algorithm gets the MDP", o.st, same_val(args[1], m))
            k = E.int("k")
            E.prove("the algorithm gets the reward function", o.st, eq(E.rd(args[2], s1, k), E.rd(rf, st, k)), and_(0 <= k, k < F))
            E.prove("the algorithm gets the position", o.st, eq(args[3], pos))


def move_contract(E, d, ghost):
    """contract of AttachedAgent.step for an agent that has been fit and knows an action (see agent_step)"""
    def h(I, fv, args, kw):
        ag = args[0]
        t = I.ctx.choice(I, "next", z3.IntSort())
        p = I.get_fam(ag, pos_field(I, d))
        I.assume(and_(le(0, t), lt(t, d["N"]), lt(0, d["Pf"](p, ghost(I, p), t))), "step")
        I.set_fam(ag, pos_field(I, d), t)
        I.take([Outcome(x.st, "normal", x.val) if x.kind == "value" else x for x in
                I.call(BoundV(I.st.heap[d["m"].cid].cls.lookup("update_agent_feature"), d["m"]), [ag.idx, t], {})])
        I.take([Outcome(x.st, "normal", x.val) if x.kind == "value" else x for x in I.call(MethV(I.getattr(ag, "position_history"), "append"), [t], {})])
        return None
    E.I.contracts["maMDP.agents.AttachedAgent.step"] = h


def env_step():
    E = Env("Environment.step")
    d = fam_env(E)
    st, M, N, F, m = d["st"], d["M"], d["N"], d["F"], d["m"]
    sas = E.get(m, "sas", st)
    d["Pf"] = lambda s, a, t: E.rd(sas, st, s, a, t)
    pif = E.fn("pi", 1, "int")
    move_contract(E, d, lambda I, p: pif(p))
    who = E.int("who")
    bad = st.clone()
    bad.pc.append(or_(who < 0, who >= M))
    for o in E.raises(E.method(d["env"], "step", [who], st=bad), ("ValueError",), " for an unknown agent"):
        fam_same_others(E, d, bad, o.st, None, "nothing moves for an unknown agent")
        E.prove_same("features unchanged", E.get(m, "features", bad), bad, E.get(m, "features", o.st), o.st)
    ok = st.clone()
    ok.pc.append(and_(0 <= who, who < M))
    ln, hf = d["fields"]["position_history"]
    for o in E.no_raise(E.method(d["env"], "step", [who], st=ok), " (step)"):
        p, t = fam_pos(E, d, ok, who), fam_pos(E, d, o.st, who)
        E.prove("the named agent moves along a transition of its chosen action", o.st, and_(0 <= t, t < N, d["Pf"](p, pif(p), t) > 0))
        E.prove("the new state is returned", o.st, eq(o.val, t))
        E.I.st = o.st
        h = E.I.get_fam(d["agent"](who), "position_history")
        j = E.int("j")
        E.prove("its history grows by the new state", o.st, and_(eq(o.st.heap[h.lcid].fn(who), T.add(ln(who), 1)),
                eq(o.st.heap[h.ecid].fn(who, j), ite(eq(j, ln(who)), t, hf(who, j)))), and_(0 <= j, j <= ln(who)))
        fam_same_others(E, d, ok, o.st, who, "no other agent is affected")
        E.prove("one step is counted", o.st, eq(E.get(d["env"], "n_steps", o.st), T.add(E.int("n_steps0"), 1)))
        E.prove_same("transition function unchanged", sas, ok, E.get(m, "sas", o.st), o.st)


def caught_spec(E, d, st, who):
    """exists a consumed feature that is the marker of an agent in the same state"""
    ln, cf = d["fields"]["consumes"]
    M, F = d["M"], d["F"]
    c = st.heap[st.heap[d["fam"]].fields[pos_field(E.I, d)][1]].fn
    w, k = z3.Int("bq_j"), z3.Int("bq_k")
    inner = E.ctx.reduction("any", [w], [k], T.zb(and_(eq(T.add(F, k), cf(who, w)), eq(c(who), c(k)))), [M])(w)
    return E.ctx.reduction("any", [], [w], T.zb(inner), [ln(who)])()


def check_caught():
    E = Env("Environment._check_agents_caught")
    d = fam_env(E)
    st, M = d["st"], d["M"]
    E.I.st = st
    who = E.int("who")
    st.pc.append(and_(0 <= who, who < M))
    for o in E.no_raise(E.method(d["env"], "_check_agents_caught", [who], st=st), " (call)"):
        E.I.st = st
        E.prove("caught exactly when another agent whose marker is consumed is in the same state", o.st, iff(o.val, caught_spec(E, d, st, who)))
        fam_same_others(E, d, st, o.st, None, "nothing changes")


def multi(how, stop):
    def f():
        E = Env(f"Environment.step_multi(n_steps={how}, stop_on_caught={stop})")
        d = fam_env(E)
        st, M, N, F, m, env = d["st"], d["M"], d["N"], d["F"], d["m"], d["env"]
        sas = E.get(m, "sas", st)
        Pc = st.heap[sas.cid].fn
        pif = E.fn("pi", 1, "int")
        who = E.int("who")
        st.pc.append(and_(0 <= who, who < M))
        pfield = pos_field_st(st, d)

        # contract of Environment.step (section above); features: see C05, C06
        def step(I, fv, args, kw):
            ag = d["agent"](args[1])
            t = I.ctx.choice(I, "next", z3.IntSort())
            p = I.get_fam(ag, pfield)
            I.assume(and_(le(0, t), lt(t, N), lt(0, Pc(p, pif(p), t))), "step")
            I.set_fam(ag, pfield, t)
            I.take([Outcome(x.st, "normal", x.val) if x.kind == "value" else x for x in I.call(MethV(I.getattr(ag, "position_history"), "append"), [t], {})])
            c = I.st.heap[env.cid]
            I.st.heap[env.cid] = ObjCell(c.cls, dict(c.fields, n_steps=T.add(c.fields["n_steps"], 1)))
            return t
        E.I.contracts["maMDP.environments.Environment.step"] = step
        ln, hf = d["fields"]["position_history"]
        n = E.int("n")
        kw = dict(stop_on_caught=stop)
        E.I.st = st
        if how == "int":
            kw["n_steps"] = n
            st.pc.append(n >= 0)
        elif how == "list":
            L = E.int("L")
            lf = E.fn("nst", 1, "int")
            st.pc.append(and_(L >= 1, lf(0) >= 0))
            kw["n_steps"] = E.I.new_list(None, L, lambda j: lf(j))
            n = lf(0)
        else:
            n = d["fields"]["n_moves"](who)
        p0 = d["fields"][pfield](who)
        for o in E.no_raise(E.method(env, "step_multi", [who], kw, st=st), " (step_multi)"):
            E.I.st = o.st
            h = E.I.get_fam(d["agent"](who), "position_history")
            hl, he = o.st.heap[h.lcid].fn, o.st.heap[h.ecid].fn
            j, k = E.int("j"), E.int("k")
            made = T.sub(hl(who), ln(who))
            tr = lambda i: ite(eq(i, 0), p0, he(who, T.add(ln(who), T.sub(i, 1))))
            E.prove("earlier history is unchanged", o.st, eq(he(who, j), hf(who, j)), and_(0 <= j, j < ln(who)))
            E.prove("every step follows a transition of the chosen action, from where the previous one ended", o.st,
                    and_(le(0, tr(T.add(k, 1))), lt(tr(T.add(k, 1)), N), lt(0, Pc(tr(k), pif(tr(k)), tr(T.add(k, 1))))), and_(0 <= k, k < made))
            E.prove("the agent ends where its last step led", o.st, eq(fam_pos(E, d, o.st, who), tr(made)))
            E.prove("every step is counted", o.st, eq(E.get(env, "n_steps", o.st), T.add(E.int("n_steps0"), made)))
            fam_same_others(E, d, st, o.st, who, "no other agent is affected")
            catch = lambda i: caught_at(E, d, st, who, tr(T.add(i, 1)))
            for g, v in (o.val.alts if isinstance(o.val, Case) else [(True, o.val)]):
                s1 = o.st.clone()
                if g is not True:
                    s1.pc.append(g)
                if T.is_bool(v):
                    E.prove("the only truth value returned is False", s1, eq(v, False))
                    E.prove("False is returned only when stopping on a catch was asked for", s1, stop)
                    E.prove("False: at most the requested number of steps, at least one", s1, and_(1 <= made, made <= n))
                    E.prove("False: the last step caught an agent", s1, catch(T.sub(made, 1)))
                    E.prove("False: no earlier step caught an agent", s1, not_(catch(k)), and_(0 <= k, k < T.sub(made, 1)))
                elif isinstance(v, ListRef):
                    E.prove("exactly the requested number of steps is made", s1, eq(made, n))
                    E.I.st = s1
                    E.prove("one state per step is returned", s1, eq(E.I.length(v), n))
                    E.prove("the states returned are those visited, in order", s1, eq(E.at(v, k, s1), tr(T.add(k, 1))), and_(0 <= k, k < n))
                    if stop:
                        E.prove("no step caught an agent", s1, not_(catch(k)), and_(0 <= k, k < n))
                else:
                    E.prove("returns a list of states or False", s1, False)
    return f


def multi_errors():
    """planning moves: one per agent, all positive"""
    for how in ("length", "sign"):
        E = Env(f"Environment.step_multi(n_moves_plan of wrong {how})")
        d = fam_env(E)
        st, M, m, env = d["st"], d["M"], d["m"], d["env"]
        who, L, j0 = E.int("who"), E.int("L"), E.int("j0")
        pf = E.fn("plan", 1, "int")
        st.pc.append(and_(0 <= who, who < M, L >= 0))
        if how == "length":
            st.pc.append(ne(L, M))
        else:
            st.pc.append(and_(eq(L, M), 0 <= j0, j0 < L, pf(j0) <= 0))
        E.I.st = st
        plan = E.I.new_list(None, L, lambda j: pf(j))
        for o in E.raises(E.method(env, "step_multi", [who], dict(n_moves_plan=plan, n_steps=E.int("n")), st=st), ("ValueError",), ""):
            fam_same_others(E, d, st, o.st, None, "nothing moves")
            E.prove_same("features unchanged", E.get(m, "features", st), st, E.get(m, "features", o.st), o.st)
            E.prove("no step is counted", o.st, eq(E.get(env, "n_steps", o.st), E.int("n_steps0")))
    E = Env("Environment.step_multi(unknown agent)")
    d = fam_env(E)
    st, M, m, env = d["st"], d["M"], d["m"], d["env"]
    who = E.int("who")
    st.pc.append(or_(who < 0, who >= M))
    for o in E.raises(E.method(env, "step_multi", [who], dict(n_steps=E.int("n")), st=st), ("ValueError",), ""):
        fam_same_others(E, d, st, o.st, None, "nothing moves")


def refit(K, given):
    """refit=True: before every step the agent is fitted once, with the planning moves of that step (K agents)"""
    def f():
        E = Env(f"Environment.step_multi(refit=True, {K} agents, n_moves_plan {'given' if given else 'not given'})")
        outs, d = environment(E, K)
        o = E.no_raise(outs, " (Environment)")[0]
        st, env = E.slim(o.st), o.val
        names = d["names"]
        me = K - 1
        who = names[me]
        order = [who] + [x for x in names if x != who]
        moves = {}
        dref = E.get(env, "agents", st)
        agents = dict(st.heap[dref.cid].items)
        for nm in names:
            v = E.int("moves_" + nm)
            st.pc.append(v >= 1)
            st = E.no_raise(E.setattr(agents[nm], "n_moves", v, st=st))[0].st
            moves[nm] = v
        n, turns = E.int("n"), E.int("turns")
        st.pc.append(n >= 0)
        PL = z3.Function("plan_for", *[z3.IntSort()] * 5)
        E.ctx.keep.append(PL)

        # contract of get_n_moves_plan (C17): the result is a function of its arguments
        def gp(I, fv, args, kw):
            a = list(args)
            nms = [x.arg for x in fv.node.args.args]
            for x in nms[len(a):]:
                a.append(kw[x])
            return PL(*[T.zi(x) for x in a])
        E.I.contracts["maMDP.environments.get_n_moves_plan"] = gp
        cl = z3.Function("fit_calls", z3.IntSort(), z3.IntSort())
        ec = st.heap[env.cid]
        st.heap[env.cid] = ObjCell(ec.cls, dict(ec.fields, ghost_fit=0, ghost_steps=0))
        pl = [E.int(f"plan{k}") for k in range(K)]
        for x in pl:
            st.pc.append(x >= 1)
        tot = pl if given else [moves[x] for x in order]

        def fit(I, fv, args, kw):
            c = I.st.heap[env.cid]
            i = c.fields["ghost_fit"]
            nm = kw.get("n_moves", args[2] if len(args) > 2 else None)
            I.oblige("the agent that moves is the one fitted", same_val(args[1], who))
            items = I.concrete_items(nm)
            ok = items is not None and len(items) == K
            I.oblige("one plan per agent", ok)
            if ok:
                for k, x in enumerate(items):
                    I.oblige(f"plan of agent {k}: the moves left of its turn and later turns", T.is_scalar(x) and eq(x, PL(T.zi(i if k == 0 else 0), turns, T.zi(moves[order[k]]), T.zi(tot[k]))))
            I.oblige("fitted once before every step", eq(i, c.fields["ghost_steps"]))
            I.st.heap[env.cid] = ObjCell(c.cls, dict(c.fields, ghost_fit=T.add(i, 1)))
            return None

        def step(I, fv, args, kw):
            c = I.st.heap[env.cid]
            I.oblige("the named agent steps", same_val(args[1], who))
            I.oblige("every step follows a fit", eq(c.fields["ghost_fit"], T.add(c.fields["ghost_steps"], 1)))
            I.st.heap[env.cid] = ObjCell(c.cls, dict(c.fields, ghost_steps=c.fields["ghost_fit"]))
            return I.ctx.choice(I, "next", z3.IntSort())
        E.I.contracts["maMDP.environments.Environment.step"] = step
        E.I.contracts["maMDP.environments.Environment.fit"] = fit
        E.I.contracts["maMDP.environments.Environment._check_agents_caught"] = lambda I, fv, args, kw: I.ctx.choice(I, "caught", z3.BoolSort())
        E.I.st = st
        kw = dict(n_steps=n, n_turns_plan=turns, refit=True, stop_on_caught=False)
        if given:
            kw["n_moves_plan"] = E.I.new_list(list(pl))
        for o in E.no_raise(E.method(env, "step_multi", [who], kw, st=st), " (step_multi)"):
            E.prove("as many fits as steps", o.st, and_(eq(E.get(env, "ghost_fit", o.st), n), eq(E.get(env, "ghost_steps", o.st), n)))
            if given:
                E.prove_same("the given plan is not changed", kw["n_moves_plan"], st, kw["n_moves_plan"], o.st)
    f.bounded = f"{K} agents (any number of steps, turns and moves)"
    return f


def env_fit():
    """Environment.fit: the named agent and no other is fitted, with the given numbers of moves"""
    E = Env("Environment.fit")
    d = fam_env(E)
    st, M, m, env = d["st"], d["M"], d["m"], d["env"]
    who = E.int("who")
    ec = st.heap[env.cid]
    st.heap[env.cid] = ObjCell(ec.cls, dict(ec.fields, ghost_fit=0))
    cur = []

    def h(I, fv, args, kw):
        I.oblige("the agent fitted is the named one, an agent of the environment", and_(isinstance(args[0], FamRef), eq(args[0].idx, who), 0 <= who, who < M))
        I.oblige("with the given numbers of moves", same_val(kw.get("n_moves", args[1] if len(args) > 1 else None), cur[-1]))
        c = I.st.heap[env.cid]
        I.st.heap[env.cid] = ObjCell(c.cls, dict(c.fields, ghost_fit=T.add(c.fields["ghost_fit"], 1)))
        return None
    E.I.contracts["maMDP.agents.AttachedAgent.fit"] = h
    bad = st.clone()
    bad.pc.append(or_(who < 0, who >= M))
    E.I.st = bad
    cur.append(E.I.new_list(None, M, lambda j: j))
    for o in E.raises(E.method(env, "fit", [who], dict(n_moves=cur[-1]), st=bad), ("ValueError",), " for an unknown agent"):
        E.prove("no agent is fitted for an unknown name", o.st, eq(E.get(env, "ghost_fit", o.st), 0))
    ok = st.clone()
    ok.pc.append(and_(0 <= who, who < M))
    for nm in (True, None):
        E.I.st = ok
        cur.append(E.I.new_list(None, M, lambda j: j) if nm else None)
        for o in E.no_raise(E.method(env, "fit", [who], dict(n_moves=cur[-1]) if nm else {}, st=ok), " (fit)"):
            E.prove("one agent is fitted", o.st, eq(E.get(env, "ghost_fit", o.st), 1))
            fam_same_others(E, d, ok, o.st, None, "nothing else changes")


def pos_field_st(st, d):
    c = [k for k in st.heap[d["fam"]].fields if k.endswith("__position") or k == "_position"]
    if len(c) != 1:
        raise Unsupported("position attribute")
    return c[0]


def caught_at(E, d, st, who, t):
    """agent `who` in state t meets an agent whose marker it consumes (all others where they were in st)"""
    ln, cf = d["fields"]["consumes"]
    M, F = d["M"], d["F"]
    c = d["fields"][pos_field_st(st, d)]
    tt, w, k = z3.Int("pq_t"), z3.Int("bq_j"), z3.Int("bq_k")
    inner = E.ctx.reduction("any", [tt, w], [k], T.zb(and_(eq(T.add(F, k), cf(who, w)), or_(eq(k, who), eq(tt, c(k))))), [M])(tt, w)
    return E.ctx.reduction("any", [tt], [w], T.zb(inner), [ln(who)])(t)


SECTIONS = [
    ("AttachedAgent.step", agent_step),
    ("AttachedAgent.get_policy", selector_args),
    ("AttachedAgent.fit", agent_fit),
    ("Algorithm.fit", base_fit),
    ("Environment.step", env_step),
    ("Environment._check_agents_caught", check_caught),
    ("Environment.step_multi (given number)", multi("int", False)),
    ("Environment.step_multi (list)", multi("list", False)),
    ("Environment.step_multi (agent's own number of moves)", multi(None, False)),
    ("Environment.step_multi (given number, stopping on a catch)", multi("int", True)),
    ("Environment.step_multi (agent's own number of moves, stopping on a catch)", multi(None, True)),
    ("Environment.step_multi (rejected arguments)", multi_errors),
    ("Environment.fit", env_fit),
    ("Environment.step_multi (refitting, 1 agent)", refit(1, False)),
    ("Environment.step_multi (refitting, 2 agents)", refit(2, True)),
    ("Environment.step_multi (refitting, 3 agents)", refit(3, False)),
    ("Environment.step_multi (refitting, 3 agents, given plan)", refit(3, True)),
]
