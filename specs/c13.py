"""C13: softmax action selection."""
from .c12 import *


def soft_row():
    """softmax of one row of values"""
    E = Env("softmax")
    A = E.int("A")
    Tm = E.real("temperature")
    E.assume(A >= 1, Tm > 0)
    v, m = E.fn("q", 1), E.fn("q_ninf", 1, "bool")
    E.I.st = E.st
    q = E.I.new_arr((A,), "float", lambda a: T.XF(v(a), False, m(a), False))
    a, b = E.int("a"), E.int("b")
    ia, ib = and_(0 <= a, a < A), and_(0 <= b, b < A)
    bb = z3.Int("bx_a")
    some = E.ctx.reduction("any", [], [bb], T.zb(not_(m(bb))), [A])()
    for o in E.no_raise(E.call(SEL + "softmax", [q, Tm], st=E.st)):
        p = lambda x: E.rd(o.val, o.st, x)
        E.prove("one probability per action", o.st, isinstance(o.val, Arr) and o.val.ndim == 1 and eq(o.val.shape[0], A))
        E.prove("never NaN or infinite", o.st, T.isfinite(p(a)), ia)
        E.prove("probabilities are not negative", o.st, le(0, p(a)), ia)
        E.prove("an unavailable action has probability 0", o.st, eq(p(a), 0), ia, m(a), some)
        E.prove("an available action has positive probability", o.st, lt(0, p(a)), ia, not_(m(a)))
        E.prove("a higher value never has a lower probability", o.st, le(p(b), p(a)), ia, ib, not_(m(a)), not_(m(b)), v(b) <= v(a))
        # w: an available action of highest value
        w = E.int("w")
        bw = z3.Int("bw")
        hw = and_(0 <= w, w < A, not_(m(w)), not_(E.ctx.reduction("any", [z3.Int("pw")], [bw], T.zb(and_(not_(m(bw)), v(z3.Int("pw")) < v(bw))), [A])(w)))
        ex = lambda x: ite(m(x), T.Fraction(0), T.EXP((T.zr(v(x)) - T.zr(v(w))) / Tm))
        E.prove("probability = exp((value - highest) / temperature), normalised", o.st, eq(p(a), T.truediv_fin(ex(a), E.total(ex, A))), ia, hw)
        E.prove("without available actions all are equally likely", o.st, eq(p(a), T.truediv_fin(T.Fraction(1), T.to_float(A))), ia, not_(some))
        E.prove_same("the values are not modified", q, E.st, q, o.st)
        fin = lambda x: p(x).val if isinstance(p(x), T.XF) else p(x)
        E.prove("probabilities sum to 1", o.st, eq(E.total(lambda x: T.to_float(fin(x)), A), 1))


def soft(E):
    Tm = E.real("temperature")
    E.assume(Tm > 0)
    return setup(E, "SoftmaxActionSelector", dict(temperature=Tm)) + (Tm,)


def avail(qf, s, a):
    x = qf(s, a)
    return and_(not_(x.nan), not_(x.ninf))


def get_pi_p():
    E = Env("SoftmaxActionSelector.get_pi_p")
    st, sel, N, A, q, qf, Tm = soft(E)
    some_value(E, st, N, A, qf)
    s, a, w = E.int("s"), E.int("a"), E.int("w")
    rng = and_(0 <= s, s < N, 0 <= a, a < A)
    pw, pa, bw = z3.Int("pw_s"), z3.Int("pw_a"), z3.Int("bw")
    some = row_any(E, A, lambda p, b: avail(qf, p, b), s)
    hw = and_(0 <= w, w < A, avail(qf, s, w), not_(E.ctx.reduction("any", [pw, pa], [bw], T.zb(and_(avail(qf, pw, bw), qf(pw, pa).val < qf(pw, bw).val)), [A])(s, w)))
    ex = lambda x: ite(avail(qf, s, x), T.EXP((T.zr(qf(s, x).val) - T.zr(qf(s, w).val)) / Tm), T.Fraction(0))
    kn = known(E, A, qf, s)
    for o in E.no_raise(E.method(sel, "get_pi_p", [q], st=st)):
        E.prove("one probability per state and action", o.st, isinstance(o.val, Arr) and o.val.ndim == 2 and and_(eq(o.val.shape[0], N), eq(o.val.shape[1], A)))
        p = E.rd(o.val, o.st, s, a)
        E.prove("probability = exp((value - highest) / temperature), normalised over the state's available actions", o.st,
                and_(T.isfinite(p), eq(p, T.truediv_fin(ex(a), E.total(ex, A)))), rng, hw)
        E.prove("without available actions all are equally likely", o.st, eq(p, T.truediv_fin(T.Fraction(1), T.to_float(A))), rng, kn, not_(some))
        E.prove("a state without any value has no probabilities", o.st, T.isnan(p), rng, not_(kn))
        E.prove_same("the values are not modified", q, st, q, o.st)


def weights():
    """internal contract of the weights that get_pi samples from"""
    E = Env("SoftmaxActionSelector._get_pi_p")
    Tm = E.real("temperature")
    E.assume(Tm > 0)
    st, sel, N, A, q, qf = setup(E, "SoftmaxActionSelector", dict(temperature=Tm), nan=False)
    s, a = E.int("s"), E.int("a")
    rng = and_(0 <= s, s < N, 0 <= a, a < A)
    some = row_any(E, A, lambda p, b: avail(qf, p, b), s)
    for o in E.no_raise(E.method(sel, "_get_pi_p", [q], st=st)):
        E.I.st = o.st
        own = E.get(sel, "_pi_p", o.st)
        E.lemma("the weights are kept", o.st, isinstance(own, Arr) and isinstance(o.val, Arr) and same_val(own, o.val) and own.ndim == 2)
        E.lemma("one weight per state and action", o.st, and_(eq(own.shape[0], N), eq(own.shape[1], A)))
        p = E.rd(own, o.st, s, a)
        E.lemma("weights are finite and not negative", o.st, and_(T.isfinite(p), le(0, p)), rng)
        E.lemma("an unavailable action has weight 0", o.st, eq(p, 0), rng, not_(avail(qf, s, a)), some)
        E.lemma("an available action has positive weight", o.st, lt(0, p), rng, avail(qf, s, a))
        fin = lambda x: E.rd(own, o.st, s, x).val if isinstance(E.rd(own, o.st, s, x), T.XF) else E.rd(own, o.st, s, x)
        for c in (some, not_(some)):
            E.lemma("weights sum to 1", o.st, eq(E.total(lambda x: T.to_float(fin(x)), A), 1), rng, c)
        for f in o.st.heap[sel.cid].fields:
            if f not in ("_pi_p", "_pi"):
                E.prove_same("the selector's settings are kept", E.get(sel, f, st), st, E.get(sel, f, o.st), o.st)
        E.prove_same("the values are not modified", q, st, q, o.st)


def get_pi():
    E = Env("SoftmaxActionSelector.get_pi")
    st, sel, N, A, q, qf, Tm = soft(E)
    some_value(E, st, N, A, qf)
    s = E.int("s")
    rng = and_(0 <= s, s < N)
    some = row_any(E, A, lambda p, b: avail(qf, p, b), s)
    kn = known(E, A, qf, s)
    w = E.fn("weight", 2)

    def h(I, fv, args, kw):
        q1 = args[1] if len(args) > 1 else kw["q_values"]
        f1 = I.arr_fn(q1)
        i, j = E.int("w_s"), E.int("w_a")
        if I.ctx.loopstack or q1.ndim != 2:
            raise Unsupported("weights computed elsewhere")
        inr = and_(0 <= i, i < N, 0 <= j, j < A)
        x = T.as_xf(f1(i, j))
        E.ctx.prove(f"{E.name}: the weights are computed from the values, missing ones as unavailable", list(I.st.pc) + [inr],
                    and_(eq(q1.shape[0], N), eq(q1.shape[1], A), ident(x, effective(qf)(i, j))))
        e = effective(qf)
        sm = row_any(E, A, lambda p, b: avail(qf, p, b), i)
        tot = T.map_terms(E.ctx._sum_term([i], j, w(i, j), A), lambda t: t)
        E.forall([i, j], implies(inr, and_(le(0, w(i, j)), implies(e(i, j).ninf, or_(not_(sm), eq(w(i, j), 0))), implies(not_(e(i, j).ninf), lt(0, w(i, j))))))
        E.forall([i], implies(and_(0 <= i, i < N), eq(tot, 1)))
        r = I.new_arr((N, A), "float", w)
        c = I.st.heap[args[0].cid]
        I.st.heap[args[0].cid] = ObjCell(c.cls, dict(c.fields, _pi_p=r))
        return r
    E.I.contracts[SEL + "SoftmaxActionSelector._get_pi_p"] = h
    for o in E.no_raise(E.method(sel, "get_pi", [q], st=st)):
        E.prove("one action per state", o.st, isinstance(o.val, Arr) and o.val.ndim == 1 and eq(o.val.shape[0], N))
        p = E.rd(o.val, o.st, s)
        E.prove("a state with values gets an action", o.st, and_(0 <= p, p < A), rng, kn)
        E.prove("an available action is chosen when there is one", o.st, avail(qf, s, p), rng, some)
        E.prove("a state without any value gets -1", o.st, eq(p, -1), rng, not_(kn))
        E.prove_same("the values are not modified", q, st, q, o.st)


def bad_temperature():
    E = Env("SoftmaxActionSelector(temperature)")
    Tm = E.real("temperature")
    bad = E.st.clone()
    bad.pc.append(Tm <= 0)
    E.raises(E.call(SEL + "SoftmaxActionSelector", [Tm], st=bad), ("ValueError",), " for a temperature that is not positive")
    ok = E.st.clone()
    ok.pc.append(Tm > 0)
    for o in E.no_raise(E.call(SEL + "SoftmaxActionSelector", [Tm], st=ok), " for a positive temperature"):
        E.prove("the temperature is kept", o.st, eq(E.get(o.val, "temperature", o.st), Tm))


SECTIONS = [
    ("softmax", soft_row),
    ("SoftmaxActionSelector.get_pi_p", get_pi_p),
    ("SoftmaxActionSelector._get_pi_p", weights),
    ("SoftmaxActionSelector.get_pi", get_pi),
    ("SoftmaxActionSelector(temperature)", bad_temperature),
]
