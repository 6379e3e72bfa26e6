"""C20: reward inference counts features as visited and predicts visits by the policy's dynamics."""
from .mdps import *

IRL = "maMDP.algorithms.irl."


def visitation():
    E = Env("state_visitation_iterator")
    N, A, n = E.int("N"), E.int("A"), E.int("n_iter")
    E.assume(N >= 1, A >= 1, n >= 0)
    P, pi, p0 = E.fn("sas", 3), E.fn("pi", 2), E.fn("p_zero", 1)
    W = E.fn("W", 2)
    k, t = z3.Int("wk"), z3.Int("wt")
    nxt = lambda k, t: T.add(p0(t), E.psum(lambda s: T.mul(W(k, s), E.psum(lambda a: T.mul(pi(s, a), P(s, a, t)), A)), N))
    E.forall([t], implies(and_(0 <= t, t < N), eq(W(0, t), 0)))
    E.forall([k, t], implies(and_(k >= 0, 0 <= t, t < N), eq(W(T.add(k, 1), t), nxt(k, t))))

    E.invariant(lambda loop, key: key.dtype == "float" and len(loop.shape_of(key)) == 1 and not loop.ctx.loopstack[:-1], lambda x, p, k: eq(x, W(k, p[0])))
    sas, PI, P0 = E.arr("sas", (N, A, N), fn=P), E.arr("pi", (N, A), fn=pi), E.arr("p_zero", (N,), fn=p0)
    for o in E.no_raise(E.call(IRL + "state_visitation_iterator", [sas, n, PI, P0])):
        s = E.int("s")
        E.prove("one frequency per state", o.st, o.val.ndim == 1 and eq(o.val.shape[0], N))
        E.prove("after n iterations: start distribution plus the flow from the previous iteration's frequencies, n times", o.st, eq(E.rd(o.val, o.st, s), W(n, s)), and_(0 <= s, s < N))
        for nm, a in (("transition function", sas), ("policy", PI), ("start distribution", P0)):
            E.prove_same(nm + " unchanged", a, E.st, a, o.st)


def mf_setup(E):
    outs, N, A, F, sf, feat, sas = mdp(E)
    o = E.no_raise(outs, " (MDP)")[0]
    st = E.slim(o.st)
    al = E.no_raise(E.call(IRL + "MFFeatureMatching", [], st=st), " (constructor)")[0]
    st = al.st
    E.I.st = st
    ni, ig = E.int("ni"), E.fn("ignored", 1, "int")
    st.pc.append(ni >= 0)
    j = z3.Int("ig_j")
    E.forall([j], and_(0 <= ig(j), ig(j) < F))
    ign = E.I.new_list(None, ni, lambda k: ig(k))
    isig = lambda f: E.ctx.reduction("any", [f], [z3.Int("ig_b")], eq(ig(z3.Int("ig_b")), f), [ni])(f)
    return dict(N=N, A=A, F=F, m=o.val, st=st, al=al.val, ign=ign, isig=isig, ft=E.get(o.val, "features", st), sas=E.get(o.val, "sas", st))


def mf_post(E, d, o, count):
    st, F, N = d["st"], d["F"], d["N"]
    f = E.int("f")
    rf = and_(0 <= f, f < F)
    E.prove("one weight per feature", o.st, o.val.ndim == 1 and eq(o.val.shape[0], F))
    E.prove("the weight of a feature that is not ignored is its total over the visited states, without the starting states", o.st,
            eq(E.rd(o.val, o.st, f), count(f)), rf, not_(d["isig"](f)))
    E.prove("the weight of an ignored feature is 0", o.st, eq(E.rd(o.val, o.st, f), 0), rf, d["isig"](f))
    th = E.get(d["al"], "theta", o.st)
    E.prove("kept as theta", o.st, isinstance(th, Arr) and th.ndim == 1 and eq(E.rd(th, o.st, f), E.rd(o.val, o.st, f)), rf)
    E.prove_same("the MDP is not changed", d["m"], st, d["m"], o.st)


def mf_array():
    """any number of trajectories of the same length"""
    E = Env("MFFeatureMatching.fit (any number of trajectories)")
    d = mf_setup(E)
    st, N = d["st"], d["N"]
    n, L = E.int("n"), E.int("L")
    st.pc += [n >= 1, L >= 1]
    tf = E.fn("traj", 2, "int")
    i, j = z3.Int("tr_i"), z3.Int("tr_j")
    E.forall([i, j], and_(0 <= tf(i, j), tf(i, j) < N))
    E.I.st = st
    tr = E.I.new_arr((n, L), "int", tf)
    x = lambda f, s: E.rd(d["ft"], st, f, s)
    for o in E.no_raise(E.method(d["al"], "fit", [d["m"], tr], dict(ignore_features=d["ign"]), st=st)):
        mf_post(E, d, o, lambda f: E.psum(lambda k: E.psum(lambda j: x(f, tf(k, T.add(j, 1))), T.sub(L, 1)), n))


def mf_lists(K, many):
    def run():
        """K trajectories of any lengths; many: one MDP per trajectory"""
        E = Env("MFFeatureMatching.fit (%d trajectories%s)" % (K, ", one MDP each" if many else ""))
        d = mf_setup(E)
        st, N = d["st"], d["N"]
        E.I.st = st
        trs, fs = [], []
        for q in range(K):
            L, tf = E.int("L%d" % q), E.fn("traj%d" % q, 1, "int")
            st.pc.append(L >= 1)
            i = z3.Int("tr_i%d" % q)
            E.forall([i], and_(0 <= tf(i), tf(i) < N))
            fs.append((L, tf))
            trs.append(E.I.new_list(None, L, lambda k, tf=tf: tf(k)))
        tr = E.I.new_list(trs)
        m = E.I.new_list([d["m"]] * K) if many else d["m"]
        x = lambda f, s: E.rd(d["ft"], st, f, s)

        def count(f):
            r = T.Fraction(0)
            for L, tf in fs:
                r = T.add(r, E.psum(lambda j: x(f, tf(T.add(j, 1))), T.sub(L, 1)))
            return r
        for o in E.no_raise(E.method(d["al"], "fit", [m, tr], dict(ignore_features=d["ign"]), st=st)):
            mf_post(E, d, o, count)
    return run


def mf_reject():
    E = Env("MFFeatureMatching.fit (numbers differ)")
    d = mf_setup(E)
    st, N = d["st"], d["N"]
    E.I.st = st
    L, tf = E.int("L"), E.fn("traj", 1, "int")
    st.pc.append(L >= 1)
    i = z3.Int("tr_i")
    E.forall([i], and_(0 <= tf(i), tf(i) < N))
    tr = E.I.new_list([E.I.new_list(None, L, lambda k: tf(k))])
    m = E.I.new_list([d["m"], d["m"]])
    E.raises(E.method(d["al"], "fit", [m, tr], {}, st=st), ("AttributeError",), " when the numbers of MDPs and trajectories differ")


def mce_setup(E, decay0=None, theta=False):
    outs, N, A, F, sf, feat, sas = mdp(E)
    o = E.no_raise(outs, " (MDP)")[0]
    st = E.slim(o.st)
    lr, tol, g = E.real("lr"), E.real("tol"), E.real("discount")
    mi, ii = E.int("vi_iter"), E.int("irl_iter")
    st.pc += [lr > 0, mi >= 1, ii >= 1]
    kw = dict(learning_rate=lr, tol=tol, VI_discount=g, VI_max_iter=mi, max_iter_irl=ii, soft=True)
    th0 = None
    if decay0 is not None:
        kw["decay"] = decay0
    if theta:
        E.I.st = st
        tf = E.fn("theta0", 1)
        th0 = tf
        kw["theta"] = E.I.new_arr((F,), "float", tf)
    al = E.no_raise(E.call(IRL + "MaxCausalEntIRL", [], kw, st=st), " (constructor)")[0]
    st = al.st
    n, L = E.int("n"), E.int("L")
    st.pc += [n >= 1, L >= 1]
    tf = E.fn("traj", 2, "int")
    i, j = z3.Int("tr_i"), z3.Int("tr_j")
    E.forall([i, j], and_(0 <= tf(i, j), tf(i, j) < N))
    E.I.st = st
    E.sizes += [n, L]
    tr = E.I.new_arr((n, L), "int", tf)
    ni, ig = E.int("ni"), E.fn("ignored", 1, "int")
    st.pc.append(ni >= 0)
    k = z3.Int("ig_j")
    E.forall([k], and_(0 <= ig(k), ig(k) < F))
    ign = E.I.new_list(None, ni, lambda q: ig(q))
    isig = lambda f: E.ctx.reduction("any", [f], [z3.Int("ig_b")], eq(ig(z3.Int("ig_b")), f), [ni])(f)
    return dict(N=N, A=A, F=F, m=o.val, st=st, al=al.val, tr=tr, tf=tf, n=n, L=L, ign=ign, isig=isig, lr=lr, tol=tol, g=g, mi=mi, ii=ii, th0=th0,
                ft=E.get(o.val, "features", st), sas=E.get(o.val, "sas", st))


def start_freq():
    E = Env("MaxCausalEntIRL._get_state_visitation_frequencies")
    d = mce_setup(E)
    st, N, A, m = d["st"], d["N"], d["A"], d["m"]
    seen, D = [], E.fn("D", 1)

    def h(I, fv, args, kw):
        got = dict(zip(["sas", "n_iter", "pi", "p_zero"], args))
        got.update(kw)
        seen.append((got, I.st.clone()))
        return I.new_arr((N,), "float", D)
    E.I.contracts[IRL + "state_visitation_iterator"] = h
    E.I.st = st
    PI = E.I.new_arr((N, A), "float", E.fn("pi", 2))
    it = E.int("it")
    s = E.int("s")
    for o in E.no_raise(E.method(d["al"], "_get_state_visitation_frequencies", [m, d["tr"], PI, it], st=st)):
        got, s1 = seen[-1]
        p0 = got["p_zero"]
        hits = E.psum(lambda k: ite(eq(d["tf"](k, 0), s), T.Fraction(1), T.Fraction(0)), d["n"])
        tot = E.psum(lambda q: E.psum(lambda k: ite(eq(d["tf"](k, 0), q), T.Fraction(1), T.Fraction(0)), d["n"]), N)
        E.prove("start probabilities in proportion to the number of trajectories that start there", s1,
                eq(T.mul(E.rd(p0, s1, s), tot), hits), and_(0 <= s, s < N), not_(eq(tot, 0)))
        E.prove_same("with the transition function", d["sas"], st, got["sas"], s1)
        E.prove_same("with the policy", PI, st, got["pi"], s1)
        E.prove("with the number of iterations", s1, eq(got["n_iter"], it))
        Dv = E.get(d["al"], "D_", o.st)
        E.prove("the frequencies are kept", o.st, eq(E.rd(Dv, o.st, s), D(s)), and_(0 <= s, s < N))
        E.prove_same("the MDP is not changed", m, st, m, o.st)


def inner():
    E = Env("MaxCausalEntIRL._maxcausalent_innerloop")
    d = mce_setup(E)
    st, N, A, F, m = d["st"], d["N"], d["A"], d["F"], d["m"]
    D, q, pp = E.fn("D", 1), E.fn("q", 2, "xfloat"), E.fn("pp", 2)
    seen = {}

    def vi(I, fv, args, kw):
        got = dict(zip(["reward_function", "features", "max_iter", "discount", "sas", "tol", "soft"], args))
        got.update(kw)
        seen["vi"] = (got, I.st.clone())
        return (I.new_arr((N,), "float", E.fn("v", 1)), I.new_arr((N, A), "float", q))

    def pi(I, fv, args, kw):
        seen["pi"] = (args[1] if len(args) > 1 else kw.get("q"), I.st.clone())
        return I.new_arr((N, A), "float", pp)

    def sv(I, fv, args, kw):
        got = dict(zip(["sas", "n_iter", "pi", "p_zero"], args))
        got.update(kw)
        seen["sv"] = (got, I.st.clone())
        return I.new_arr((N,), "float", D)
    E.I.contracts["maMDP.algorithms.dynamic_programming.solve_value_iteration"] = vi
    E.I.contracts[IRL + "solve_value_iteration"] = vi
    cls = E.I.get("maMDP.algorithms.action_selection.SoftmaxActionSelector")
    E.I.contracts[cls.lookup("get_pi_p").qual] = pi
    E.I.contracts[IRL + "state_visitation_iterator"] = sv
    E.I.st = st
    th = E.fn("theta", 1)
    TH = E.I.new_arr((F,), "float", th)
    f, s, a = E.int("f"), E.int("s"), E.int("a")
    for o in E.no_raise(E.method(d["al"], "_maxcausalent_innerloop", [m, TH, d["tr"]], st=st)):
        got, s1 = seen["vi"]
        E.prove("the world is solved for the current reward function", s1, eq(E.rd(got["reward_function"], s1, f), th(f)), and_(0 <= f, f < F))
        E.prove_same("with its features", d["ft"], st, got["features"], s1)
        E.prove_same("with its transition function", d["sas"], st, got["sas"], s1)
        E.prove("with the given settings", s1, and_(eq(got["max_iter"], d["mi"]), eq(got["discount"], d["g"]), eq(got["tol"], d["tol"]), eq(got["soft"], True)))
        qa, s2 = seen["pi"]
        E.prove("the policy is that of the action values", s2, ident(E.rd(qa, s2, s, a), q(s, a)), and_(0 <= s, s < N, 0 <= a, a < A))
        got, s3 = seen["sv"]
        E.prove("the frequencies are those of the policy", s3, eq(E.rd(got["pi"], s3, s, a), pp(s, a)), and_(0 <= s, s < N, 0 <= a, a < A))
        E.prove("expected feature counts: features summed over the states, weighted by the frequencies", o.st,
                eq(E.rd(o.val, o.st, f), E.psum(lambda t: T.mul(E.rd(d["ft"], st, f, t), D(t)), N)), and_(0 <= f, f < F))
        E.prove_same("the MDP is not changed", m, st, m, o.st)


def gradient(decay0, theta):
    def run():
        E = Env("MaxCausalEntIRL._solve_maxcausalent (%s%s)" % ("constant learning rate" if decay0 == 0 else "decaying learning rate", ", given start" if theta else ""))
        d = mce_setup(E, decay0, theta)
        st, N, A, F, m, al = d["st"], d["N"], d["A"], d["F"], d["m"], d["al"]
        G, W, TF = E.fn("G", 2), E.fn("W", 2), E.fn("TF", 1)   # ghosts: expected counts in round k, total error before round k, observed counts
        gh = E.obj("maMDP.algorithms.irl.MFFeatureMatching", rounds=0)
        st.heap[gh.cid] = E.st.heap[gh.cid]
        visits = lambda t: T.truediv_fin(E.psum(lambda k: E.psum(lambda j: ite(eq(t, d["tf"](k, j)), T.truediv_fin(T.Fraction(1), d["L"]), T.Fraction(0)), d["L"], True), d["n"], True), d["n"])
        true = lambda f: E.psum(lambda t: T.mul(E.rd(d["ft"], st, f, t), visits(t)), N)
        k, x = z3.Int("wk"), z3.Int("wf")
        E.forall([x], eq(W(0, x), 0))
        E.forall([k, x], implies(k >= 0, eq(W(T.add(k, 1), x), T.add(W(k, x), T.sub(TF(x), G(k, x))))))
        E.ctx.potentials.append(lambda q: W(q, E.int("f")))
        f = E.int("f")
        rf = and_(0 <= f, f < F)

        def h(I, fv, args, kw):
            got = dict(zip(["self", "mdp", "theta", "trajectories"], args))
            got.update(kw)
            k = I.st.heap[gh.cid].fields["rounds"]
            I.oblige("an ignored feature has weight 0 in every round", implies(and_(rf, d["isig"](f)), eq(E.rd(got["theta"], I.st, f), 0)))
            I.st.heap[gh.cid] = ObjCell(I.st.heap[gh.cid].cls, dict(rounds=T.add(k, 1)))
            return I.new_arr((F,), "float", lambda x: G(k, x))
        E.I.contracts[IRL + "MaxCausalEntIRL._maxcausalent_innerloop"] = h
        E.invariant(lambda loop, key: key.dtype == "float" and len(loop.shape_of(key)) == 1, lambda x, p, k: implies(d["isig"](p[0]), eq(x, 0)))
        for o in E.no_raise(E.method(al, "fit", [m, d["tr"]], dict(ignore_features=d["ign"], show_progress=False), st=st)):
            k = o.st.heap[gh.cid].fields["rounds"]
            E.prove("at least one round, at most the given number", o.st, and_(1 <= k, k <= d["ii"]))
            E.prove("one weight per feature", o.st, o.val.ndim == 1 and eq(o.val.shape[0], F))
            E.prove("an ignored feature has weight 0", o.st, eq(E.rd(o.val, o.st, f), 0), rf, d["isig"](f))
            if decay0 == 0:
                start = d["th0"](f) if theta else T.Fraction(0)
                E.prove("the weights move by learning rate times (observed - expected counts) in every round", o.st,
                        eq(E.rd(o.val, o.st, f), T.add(start, T.mul(d["lr"], W(k, f)))), rf, not_(d["isig"](f)), eq(TF(f), true(f)))
            E.prove_same("the MDP is not changed", m, st, m, o.st)
    return run


SECTIONS = [
    ("state_visitation_iterator", visitation),
    ("MFFeatureMatching.fit (any number of trajectories)", mf_array),
    ("MFFeatureMatching.fit (1 trajectory)", mf_lists(1, False)),
    ("MFFeatureMatching.fit (3 trajectories)", mf_lists(3, False)),
    ("MFFeatureMatching.fit (2 trajectories, MDPs)", mf_lists(2, True)),
    ("MFFeatureMatching.fit (numbers differ)", mf_reject),
    ("MaxCausalEntIRL._get_state_visitation_frequencies", start_freq),
    ("MaxCausalEntIRL._maxcausalent_innerloop", inner),
    ("MaxCausalEntIRL._solve_maxcausalent (constant learning rate)", gradient(0, False)),
    ("MaxCausalEntIRL._solve_maxcausalent (constant learning rate, given start)", gradient(0, True)),
    ("MaxCausalEntIRL._solve_maxcausalent (decaying learning rate)", gradient(1, False)),
]
