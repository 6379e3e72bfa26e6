"""C12: greedy action selection."""
from .base import *

SEL = "maMDP.algorithms.action_selection."


def qarr(E, N, A, nan=True):
    """action values: finite, minus infinity (unavailable) or missing (NaN)"""
    v, n, m = E.fn("q", 2), E.fn("q_nan", 2, "bool"), E.fn("q_ninf", 2, "bool")

    def q(s, a):
        nn = n(s, a) if nan else False
        return T.XF(v(s, a), nn, and_(not_(nn), m(s, a)), False)
    E.I.st = E.st
    return E.I.new_arr((N, A), "float", q), q


def row_any(E, A, f, s):
    ph, b = z3.Int("pr_s"), z3.Int("br_a")
    return E.ctx.reduction("any", [ph], [b], T.zb(f(ph, b)), [A])(s)


def setup(E, cls, kw=None, nan=True, all_known=False):
    N, A = E.int("N"), E.int("A")
    E.assume(N >= 1, A >= 1)
    q, qf = qarr(E, N, A, nan)
    sel = E.no_raise(E.call(SEL + cls, [], kw or {}, st=E.st), " (constructor)")[0]
    return sel.st, sel.val, N, A, q, qf


def known(E, A, qf, s):
    """some action of s has a value (not NaN)"""
    return row_any(E, A, lambda p, b: not_(T.isnan(qf(p, b))), s)


def effective(qf):
    """missing values count as minus infinity"""
    def g(s, a):
        x = qf(s, a)
        return T.XF(x.val, False, or_(x.nan, x.ninf), False)
    return g


def is_max(E, A, qf, s, a):
    """action a has the highest value in state s"""
    e = effective(qf)
    ph, pa, b = z3.Int("pm_s"), z3.Int("pm_a"), z3.Int("bm_b")
    return not_(E.ctx.reduction("any", [ph, pa], [b], T.zb(lt(e(ph, pa), e(ph, b))), [A])(s, a))


def some_value(E, st, N, A, qf):
    s0, a0 = E.int("s_known"), E.int("a_known")
    st.pc.append(and_(0 <= s0, s0 < N, 0 <= a0, a0 < A, not_(T.isnan(qf(s0, a0)))))


def get_pi():
    E = Env("MaxActionSelector.get_pi")
    st, sel, N, A, q, qf = setup(E, "MaxActionSelector")
    some_value(E, st, N, A, qf)
    s = E.int("s")
    rng = and_(0 <= s, s < N)
    for o in E.no_raise(E.method(sel, "get_pi", [q], st=st)):
        E.prove("one action per state", o.st, isinstance(o.val, Arr) and o.val.ndim == 1 and eq(o.val.shape[0], N))
        p = E.rd(o.val, o.st, s)
        E.prove("a state with values gets one of its best actions", o.st, and_(0 <= p, p < A, is_max(E, A, qf, s, p)), rng, known(E, A, qf, s))
        E.prove("a state without any value gets -1", o.st, eq(p, -1), rng, not_(known(E, A, qf, s)))
        E.prove_same("the values are not modified", q, st, q, o.st)


def get_pi_p():
    E = Env("MaxActionSelector.get_pi_p")
    E.ctx.count_sums = True
    st, sel, N, A, q, qf = setup(E, "MaxActionSelector")
    some_value(E, st, N, A, qf)
    s, a = E.int("s"), E.int("a")
    rng = and_(0 <= s, s < N, 0 <= a, a < A)
    for o in E.no_raise(E.method(sel, "get_pi_p", [q], st=st)):
        E.prove("one probability per state and action", o.st, isinstance(o.val, Arr) and o.val.ndim == 2 and and_(eq(o.val.shape[0], N), eq(o.val.shape[1], A)))
        p = E.rd(o.val, o.st, s, a)
        ph, b = z3.Int("pc_s"), z3.Int("bc_a")
        cnt = E.ctx._sum_term([ph], b, ite(is_max(E, A, qf, ph, b), 1, 0), A)
        cnt = z3.substitute(cnt, (ph, s))
        kn = known(E, A, qf, s)
        E.prove("a best action is chosen with probability 1 / number of best actions", o.st, and_(not_(T.isnan(p)), eq(p, T.truediv_fin(T.Fraction(1), T.to_float(cnt)))), rng, kn, is_max(E, A, qf, s, a))
        E.prove("any other action has probability 0", o.st, eq(p, 0), rng, kn, not_(is_max(E, A, qf, s, a)))
        E.prove("a state without any value has no probabilities", o.st, T.isnan(p), rng, not_(kn))
        E.prove_same("the values are not modified", q, st, q, o.st)


def rejects():
    E = Env("ActionSelector input checks")
    for cls in ("MaxActionSelector", "SoftmaxActionSelector"):
        N, A = E.int("N"), E.int("A")
        st = E.st.clone()
        st.pc += [N >= 1, A >= 1]
        sel = E.no_raise(E.call(SEL + cls, [], {}, st=st), " (constructor)")[0]
        for m in ("get_pi", "get_pi_p"):
            st = sel.st
            E.I.st = st
            lst = E.I.new_list(None, N, lambda j: j)
            E.raises(E.method(sel.val, m, [lst], st=st), ("TypeError",), f" ({cls}.{m}, not an array)")
            E.I.st = st
            q1 = E.I.new_arr((N,), "float", E.fn("q1", 1))
            E.raises(E.method(sel.val, m, [q1], st=st), ("AttributeError",), f" ({cls}.{m}, one dimension)")
            E.I.st = st
            q3 = E.I.new_arr((N, A), "float", lambda s, a: T.XF(T.Fraction(0), True, False, False))
            E.raises(E.method(sel.val, m, [q3], st=st), ("ValueError",), f" ({cls}.{m}, all NaN)")
        E.prove(f"{cls} rejects wrong input", st, True)


SECTIONS = [
    ("MaxActionSelector.get_pi", get_pi),
    ("MaxActionSelector.get_pi_p", get_pi_p),
    ("input checks", rejects),
]
