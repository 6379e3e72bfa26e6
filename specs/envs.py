"""Building blocks: an agent attached to an MDP that already has any number of agents; an environment with any number of agents."""
from .mdps import *


def selector_contracts(E, N, A, pif, pipf):
    """contract of the action selector (C12, C13): pi is one action (or -1) per state, pi_p an array of weights"""
    cls = E.I.get("maMDP.algorithms.action_selection.MaxActionSelector")
    for nm, mk in (("get_pi", lambda I: I.new_arr((N,), "int", pif)), ("get_pi_p", lambda I: I.new_arr((N, A), "float", pipf))):
        fv = cls.lookup(nm)
        if fv is None:
            raise Unsupported("no action selector method " + nm)
        E.I.contracts[fv.qual] = (lambda mk: lambda I, fv, args, kw: mk(I))(mk)
    s = z3.Int("pi_s")
    E.forall([s], and_(pif(s) >= -1, pif(s) < A))


def attached(E, det=None, more=True, contracts=True):
    """an agent (the one with index n) attached through the real constructor to an MDP that has n agents already;
    afterwards the MDP has M >= n+1 agents and arbitrary feature values.  -> dict"""
    outs, N, A, F, sf, feat, sas = mdp(E, det=det)
    n, M, p0 = E.int("n"), E.int("M"), E.int("p0")
    o = E.no_raise(outs, " (MDP)")[0]
    st, m = E.slim(o.st), o.val
    st.pc.append(and_(n >= 0, M > n, 0 <= p0, p0 < N))
    E.I.st = st
    f1 = E.I.new_arr((T.add(F, n), N), "float", E.fn("feat_n", 2))
    o = E.no_raise(E.setattr(m, "features", f1, st=st), " (features)")[0]
    o = E.no_raise(E.setattr(m, "n_agents", n, st=o.st))[0]
    st = E.slim(o.st)
    E.I.st = st
    rf = E.I.new_arr((T.add(F, M),), "float", E.fn("rf", 1))
    nc = E.int("nc")
    st.pc.append(nc >= 0)
    cf = E.fn("consumes", 1, "int")
    k = z3.Int("cons_k")
    E.forall([k], and_(cf(k) >= 0, cf(k) < F + M))
    cons = E.I.new_list(None, nc, lambda j: cf(j))
    pif, pipf = E.fn("pi", 1, "int"), E.fn("pi_p", 2)
    if contracts:
        selector_contracts(E, N, A, pif, pipf)
    ag = E.no_raise(E.call("maMDP.agents.Agent", ["agent"], dict(algorithm=E.cls("maMDP.algorithms.base.Null"),
                    action_selector=E.cls("maMDP.algorithms.action_selection.MaxActionSelector")), st=st), " (Agent)")[0]
    pre = ag.st
    oa = E.no_raise(E.method(ag.val, "_attach", [m, None, n, p0, rf, cons], st=ag.st), " (attach)")[0]
    st = oa.st
    d = dict(N=N, A=A, F=F, n=n, M=M, p0=p0, sf=sf, m=m, rf=rf, cons=cons, nc=nc, cf=cf, pif=pif, pipf=pipf, agent=oa.val, pre=pre, post=oa.st, f1=f1)
    if more:
        E.I.st = st
        ff = E.fn("feat", 2)
        f2 = E.I.new_arr((T.add(F, M), N), "float", ff)
        o = E.no_raise(E.setattr(m, "features", f2, st=st), " (features)")[0]
        o = E.no_raise(E.setattr(m, "n_agents", M, st=o.st))[0]
        st = E.slim(o.st)
        # the agent has moved: any position, any feature values, any history
        p = E.int("p")
        st.pc.append(and_(0 <= p, p < N))
        o = E.no_raise(E.setattr(oa.val, "position", p, st=st), " (position)")[0]
        st = E.slim(o.st)
        fr = E.get(m, "features", st)
        havoc(E, st, fr, "feath")
        E.I.st = st
        hl, hf = E.int("hl"), E.fn("hist", 1, "int")
        st.pc.append(hl >= 1)
        o = E.no_raise(E.setattr(oa.val, "position_history", E.I.new_list(None, hl, lambda j: hf(j)), st=st))[0]
        st = o.st
        al = E.get(oa.val, "algorithm", st)
        E.I.st = st
        q = E.I.new_arr((N, A), "float", E.fn("q", 2, "xfloat"))
        fit = E.bool("fit")
        o = E.no_raise(E.setattr(al, "q_values", q, st=st))[0]
        o = E.no_raise(E.setattr(al, "fit_complete", fit, st=o.st))[0]
        st = o.st
        d.update(p=p, hl=hl, hf=hf, fit=fit, algo=al, q=q)
    d["st"] = st
    return d


def havoc(E, st, arr, name):
    """arbitrary contents"""
    c = st.heap[arr.cid]
    dt = c.dtype
    st.heap[arr.cid] = ArrCell(c.shape, dt, E.fn(name, len(c.shape), dt))


def feat_fn(E, m, st):
    a = E.get(m, "features", st)
    return lambda f, s: E.rd(a, st, f, s)


def one_hot_frame(E, d, st0, st1, pos, what=""):
    """the agent's row is one-hot at pos and every other feature value is as in st0"""
    f, s = E.int("f"), E.int("s")
    rng = and_(0 <= f, f < T.add(d["F"], d["M"]), 0 <= s, s < d["N"])
    g0, g1 = feat_fn(E, d["m"], st0), feat_fn(E, d["m"], st1)
    row = T.add(d["F"], d["n"])
    sh = E.shape(E.get(d["m"], "features", st1), st1)
    E.prove(f"number of features unchanged{what}", st1, and_(eq(sh[0], T.add(d["F"], d["M"])), eq(sh[1], d["N"])))
    E.prove(f"the agent's feature row is 1 exactly where the agent is{what}", st1, eq(g1(row, s), ite(eq(s, pos), 1, 0)), rng)
    E.prove(f"all other feature values are unchanged{what}", st1, implies(ne(f, row), eq(g1(f, s), g0(f, s))), rng)


def environment(E, K=1, det=None):
    """Environment through its real constructor with K agents -> (outs, info)"""
    outs, N, A, F, sf, feat, sas = mdp(E, det=det)
    o = E.no_raise(outs, " (MDP)")[0]
    st, m = E.slim(o.st), o.val
    items, starts, rfs, conses, names = [], [], [], [], []
    for k in range(K):
        p0 = E.int(f"p0_{k}")
        st.pc.append(and_(0 <= p0, p0 < N))
        ag = E.no_raise(E.call("maMDP.agents.Agent", [f"agent{k}"], dict(algorithm=E.cls("maMDP.algorithms.base.Null"),
                        action_selector=E.cls("maMDP.algorithms.action_selection.MaxActionSelector")), st=st), " (Agent)")[0]
        st = ag.st
        E.I.st = st
        rf = E.I.new_arr((T.add(F, K),), "float", E.fn(f"rf{k}", 1))
        nc, cf = E.int(f"nc{k}"), E.fn(f"cons{k}", 1, "int")
        st.pc.append(nc >= 0)
        j = z3.Int(f"cons_j{k}")
        E.forall([j], and_(cf(j) >= 0, cf(j) < F + K))
        cons = E.I.new_list(None, nc, lambda j, cf=cf: cf(j))
        items.append((ag.val, (p0, rf, cons)))
        starts.append(p0)
        rfs.append(rf)
        conses.append((nc, cf))
        names.append(f"agent{k}")
    E.I.st = st
    dct = DictRef(E.I.alloc(DictCell(items)))
    pre = st
    outs = E.call("maMDP.environments.Environment", [m, dct], st=st)
    return outs, dict(dict=dct, N=N, A=A, F=F, K=K, sf=sf, m=m, starts=starts, rfs=rfs, conses=conses, names=names, pre=pre, feat=feat)


def fam_env(E, det=None):
    """an environment in an arbitrary state with any number M of agents: obtained from a really constructed one-agent
    environment by generalising every attribute of the agent to a family indexed by the agent (names are the numbers 0..M-1)"""
    from engine.nplib import DictFam
    outs, d = environment(E, 1, det)
    o = E.no_raise(outs, " (Environment)")[0]
    st, env = E.slim(o.st), o.val
    N, A, F, m = d["N"], d["A"], d["F"], d["m"]
    M = E.int("M")
    st.pc.append(M >= 1)
    dref = E.get(env, "agents", st)
    agd = st.heap[dref.cid]
    ag = agd.items[0][1]
    cell = st.heap[ag.cid]
    E.I.st = st
    fields = {}
    i, j = z3.Int("fi"), z3.Int("fj")
    info = dict(d, M=M, env=env, fields={})
    for nm, v in cell.fields.items():
        if nm == "agent_idx":
            fields[nm] = ("o", lambda k: k)
        elif nm == "agent_feature_idx":
            fields[nm] = ("o", lambda k: T.add(F, k))
        elif nm == "name":
            fields[nm] = ("o", lambda k: k)
        elif isinstance(v, bool):
            fields[nm] = ("v", v)
        elif T.is_scalar(v):
            f = E.fn("ag_" + nm, 1, "int" if T.is_int(v) else "float")
            fields[nm] = ("s", E.I.new_arr((M,), "int" if T.is_int(v) else "float", f).cid)
            if "position" in nm:
                E.forall([i], and_(f(i) >= 0, f(i) < N))
            if nm == "n_moves":
                E.forall([i], f(i) >= 1)
            info["fields"][nm] = f
        elif isinstance(v, Arr) and v.ndim == 1:
            f = E.fn("ag_" + nm, 2)
            fields[nm] = ("a", E.I.new_arr((M, T.add(F, M)), "float", f).cid)
            info["fields"][nm] = f
        elif isinstance(v, ListRef):
            ln, f = E.fn("ag_len_" + nm, 1, "int"), E.fn("ag_" + nm, 2, "int")
            E.forall([i], ln(i) >= 0)
            if nm == "consumes":
                E.forall([i, j], and_(f(i, j) >= 0, f(i, j) < F + M))
            fields[nm] = ("l", E.I.new_arr((M,), "int", ln).cid, E.I.new_arr((M, E.int("cap_" + nm)), "int", f).cid)
            info["fields"][nm] = (ln, f)
        elif v is None:
            fields[nm] = ("d",)
        else:
            fields[nm] = ("v", v)
    fam = E.I.alloc(FamCell(cell.cls, M, fields))
    inr = lambda k: and_(le(0, k), lt(k, M))
    df = DictFam(M, lambda k: k, lambda k: FamRef(fam, k), lambda k: k, inr)
    st.heap[dref.cid] = DictCell([], df)
    ec = st.heap[env.cid]
    ef = dict(ec.fields)
    names = ef.get("agent_names")
    if not isinstance(names, ListRef):
        raise Unsupported("environment without a list of agent names")
    st.heap[names.cid] = ListCell(None, M, lambda k: k)
    ef["n_agents"] = M
    ef["n_steps"] = E.int("n_steps0")
    st.heap[env.cid] = ObjCell(ec.cls, ef)
    fi = E.fn("feat_init", 2)
    f2 = E.I.new_arr((T.add(F, M), N), "float", fi)
    o = E.no_raise(E.setattr(m, "features", f2, st=st), " (features)")[0]
    o = E.no_raise(E.setattr(m, "n_agents", M, st=o.st))[0]
    st = E.slim(o.st)
    fr = E.get(m, "features", st)
    havoc(E, st, fr, "feat_now")
    info.update(st=st, feat_init=fi, fam=fam, agent=lambda k: FamRef(fam, k))
    return info


def fam_pos(E, d, st, k):
    return E.get(d["agent"](k), "position", st)


def fam_same_others(E, d, st0, st1, who, what, skip_who=True):
    """every attribute of every agent other than `who` is unchanged"""
    k, j = E.int("k_other"), E.int("j_other")
    hyp = and_(0 <= k, k < d["M"], ne(k, who)) if who is not None else and_(0 <= k, k < d["M"])
    c0, c1 = st0.heap[d["fam"]], st1.heap[d["fam"]]
    for nm in sorted(c0.fields):
        a, b = c0.fields[nm], c1.fields[nm]
        for x, y in zip(a[1:], b[1:]):
            if isinstance(x, int) and x in st0.heap and isinstance(st0.heap[x], ArrCell):
                g0, g1 = st0.heap[x].fn, st1.heap[y].fn
                args = [k] + [j] * (len(st0.heap[x].shape) - 1)
                E.prove(f"{what} ({nm})", st1, ident(g0(*args), g1(*args)), hyp)
