"""Scalar terms: python numbers, z3 Int/Real/Bool expressions and extended floats (XF).

Floats are mathematical reals extended with -inf, +inf and NaN (machine rounding is NOT modelled; this is
listed as an assumption in every evidence file)."""
import math
from fractions import Fraction
import z3


class Unsupported(Exception):
    """The construct is outside the verified subset of Python/NumPy."""


def is_z3(x):
    return isinstance(x, z3.ExprRef)


class XF:
    """Extended real: exactly one of nan / ninf / pinf / finite(val)."""
    __slots__ = ("val", "nan", "ninf", "pinf")

    def __init__(self, val, nan=False, ninf=False, pinf=False):
        self.val, self.nan, self.ninf, self.pinf = val, nan, ninf, pinf

    def __repr__(self):
        return f"XF({self.val},nan={self.nan},ninf={self.ninf},pinf={self.pinf})"


def xf(val, nan=False, ninf=False, pinf=False):
    if nan is False and ninf is False and pinf is False:
        return val
    return XF(val, nan, ninf, pinf)


def norm(x):
    """python float -> exact Fraction / XF; numpy-like scalars never appear."""
    if isinstance(x, float):
        if math.isnan(x):
            return XF(Fraction(0), nan=True)
        if math.isinf(x):
            return XF(Fraction(0), ninf=x < 0, pinf=x > 0)
        return Fraction(x)
    return x


def is_scalar(x):
    return isinstance(x, (bool, int, Fraction, float, XF)) or is_z3(x)


def is_bool(x):
    return isinstance(x, bool) or (is_z3(x) and z3.is_bool(x))


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (is_z3(x) and x.sort() == z3.IntSort())


def is_real(x):
    return isinstance(x, (Fraction, float)) or (is_z3(x) and x.sort() == z3.RealSort())


def is_conc(x):
    return isinstance(x, (bool, int, Fraction))


def kind(x):
    if isinstance(x, XF):
        return "float"
    if is_bool(x):
        return "bool"
    if is_int(x):
        return "int"
    if is_real(x):
        return "float"
    raise Unsupported(f"not a scalar: {type(x)}")


def zb(x):
    """to z3 Bool"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if is_z3(x) and z3.is_bool(x):
        return x
    raise Unsupported(f"expected bool, got {x!r}")


def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction) and x.denominator == 1:
        return z3.IntVal(int(x))
    if is_z3(x):
        if x.sort() == z3.IntSort():
            return x
        if z3.is_bool(x):
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f"expected int, got {x!r}")


def zr(x):
    x = norm(x)
    if isinstance(x, XF):
        raise Unsupported("special float used where a finite real is required")
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if is_z3(x):
        if x.sort() == z3.RealSort():
            return x
        if x.sort() == z3.IntSort():
            return z3.ToReal(x)
        if z3.is_bool(x):
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported(f"expected real, got {x!r}")


def to_z3(x):
    x = norm(x)
    if is_z3(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    raise Unsupported(f"no z3 form: {x!r}")


def unz(t):
    """z3 numeral/bool literal -> python value, otherwise unchanged."""
    if not is_z3(t):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return t


def simp(t):
    if isinstance(t, XF):
        return xf(simp(t.val), simp(t.nan), simp(t.ninf), simp(t.pinf))
    if is_z3(t):
        return unz(z3.simplify(t))
    return t


# ---------- booleans ----------
def not_(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return unz(z3.Not(a))


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        x = unz(x)
        if x is True:
            continue
        if x is False:
            return False
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        x = unz(x)
        if x is False:
            continue
        if x is True:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def implies(a, b):
    return or_(not_(a), b)


def same(a, b):
    """syntactic identity"""
    if a is b:
        return True
    if isinstance(a, XF) or isinstance(b, XF):
        if isinstance(a, XF) and isinstance(b, XF):
            return same(a.val, b.val) and same(a.nan, b.nan) and same(a.ninf, b.ninf) and same(a.pinf, b.pinf)
        return False
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if is_z3(a) or is_z3(b):
        return False
    return type(a) == type(b) and a == b


def ite(c, a, b):
    a, b = norm(a), norm(b)
    if isinstance(c, bool):
        return a if c else b
    c = unz(c)
    if isinstance(c, bool):
        return a if c else b
    if same(a, b):
        return a
    if isinstance(a, XF) or isinstance(b, XF):
        a, b = as_xf(a), as_xf(b)
        return xf(ite(c, a.val, b.val), ite(c, a.nan, b.nan), ite(c, a.ninf, b.ninf), ite(c, a.pinf, b.pinf))
    if is_bool(a) and is_bool(b):
        if a is True:
            return or_(c, b)
        if a is False:
            return and_(not_(c), b)
        if b is True:
            return or_(not_(c), a)
        if b is False:
            return and_(c, a)
        return z3.If(c, zb(a), zb(b))
    if is_int(a) and is_int(b):
        return z3.If(c, zi(a), zi(b))
    if is_bool(a) and is_int(b) or is_int(a) and is_bool(b):
        return z3.If(c, zi(a), zi(b))
    return z3.If(c, zr(a), zr(b))


def as_xf(a):
    a = norm(a)
    if isinstance(a, XF):
        return a
    if is_bool(a):
        a = num(a)
    return XF(a)


def num(a):
    """bool -> int"""
    if isinstance(a, bool):
        return int(a)
    if is_z3(a) and z3.is_bool(a):
        return z3.If(a, z3.IntVal(1), z3.IntVal(0))
    return norm(a)


# ---------- symbolic products of ints go through imul ----------
IMUL = z3.Function("imul", z3.IntSort(), z3.IntSort(), z3.IntSort())
IDIV = z3.Function("idiv", z3.IntSort(), z3.IntSort(), z3.IntSort())
IMOD = z3.Function("imod", z3.IntSort(), z3.IntSort(), z3.IntSort())
EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
LOG = z3.Function("log", z3.RealSort(), z3.RealSort())
SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
POW = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
TANH = z3.Function("tanh", z3.RealSort(), z3.RealSort())


def imul(a, b):
    """symbolic x symbolic integer product, canonical argument order"""
    a, b = zi(a), zi(b)
    if a.sexpr() > b.sexpr():
        a, b = b, a
    return IMUL(a, b)


def _both_int(a, b):
    return is_int(a) and is_int(b)


def add(a, b):
    a, b = num(a), num(b)
    if isinstance(a, XF) or isinstance(b, XF):
        a, b = as_xf(a), as_xf(b)
        nan = or_(a.nan, b.nan, and_(a.pinf, b.ninf), and_(a.ninf, b.pinf))
        return xf(add(a.val, b.val), nan, and_(not_(nan), or_(a.ninf, b.ninf)), and_(not_(nan), or_(a.pinf, b.pinf)))
    if is_conc(a) and is_conc(b):
        return a + b
    if is_conc(a) and a == 0 and (is_int(a) or is_real(b)):
        return b
    if is_conc(b) and b == 0 and (is_int(b) or is_real(a)):
        return a
    if _both_int(a, b):
        return unz(z3.simplify(zi(a) + zi(b)))
    return zr(a) + zr(b)


def neg(a):
    a = num(a)
    if isinstance(a, XF):
        return xf(neg(a.val), a.nan, a.pinf, a.ninf)
    if is_conc(a):
        return -a
    return -a


def sub(a, b):
    a, b = num(a), num(b)
    if isinstance(a, XF) or isinstance(b, XF):
        return add(a, neg(b))
    if is_conc(a) and is_conc(b):
        return a - b
    if is_conc(b) and b == 0:
        return a if not (is_int(a) and is_real(b)) else zr(a)
    if _both_int(a, b):
        return unz(z3.simplify(zi(a) - zi(b)))
    if same(a, b):
        return Fraction(0)
    return zr(a) - zr(b)


def sign_pos(a):
    return gt(a, 0)


def mul(a, b):
    a, b = num(a), num(b)
    if isinstance(a, XF) or isinstance(b, XF):
        a, b = as_xf(a), as_xf(b)
        ainf, binf = or_(a.ninf, a.pinf), or_(b.ninf, b.pinf)
        azero = and_(not_(or_(a.nan, ainf)), eq(a.val, 0))
        bzero = and_(not_(or_(b.nan, binf)), eq(b.val, 0))
        nan = or_(a.nan, b.nan, and_(ainf, bzero), and_(binf, azero))
        apos = or_(a.pinf, and_(not_(a.ninf), gt(a.val, 0)))
        bpos = or_(b.pinf, and_(not_(b.ninf), gt(b.val, 0)))
        inf = and_(not_(nan), or_(ainf, binf))
        samesign = or_(and_(apos, bpos), and_(not_(apos), not_(bpos)))
        return xf(mul(a.val, b.val), nan, and_(inf, not_(samesign)), and_(inf, samesign))
    if is_conc(a) and is_conc(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if is_conc(x):
            if x == 1 and (is_int(x) or is_real(y)):
                return y
            if x == 0:
                return 0 if _both_int(a, b) else Fraction(0)
    if _both_int(a, b):
        if is_conc(a) or is_conc(b):
            return unz(z3.simplify(zi(a) * zi(b)))
        for x, y in ((a, b), (b, a)):
            if is_z3(x) and z3.is_app_of(x, z3.Z3_OP_ITE):
                t, e = unz(x.arg(1)), unz(x.arg(2))
                if is_conc(t) and is_conc(e) and {t, e} <= {0, 1}:
                    return ite(x.arg(0), mul(t, y), mul(e, y))
        return imul(a, b)
    # common idiom: p * [c]  -- keep ite on 0/1 factors at the outside, so that products stay linear
    for x, y in ((a, b), (b, a)):
        if is_z3(x) and z3.is_app_of(x, z3.Z3_OP_ITE):
            t, e = unz(x.arg(1)), unz(x.arg(2))
            if is_conc(t) and is_conc(e):
                return ite(x.arg(0), mul(t, y), mul(e, y))
    return zr(a) * zr(b)


def truediv(a, b):
    a, b = num(a), num(b)
    if isinstance(a, XF) or isinstance(b, XF):
        a, b = as_xf(a), as_xf(b)
        ainf, binf = or_(a.ninf, a.pinf), or_(b.ninf, b.pinf)
        bzero = and_(not_(or_(b.nan, binf)), eq(b.val, 0))
        azero = and_(not_(or_(a.nan, ainf)), eq(a.val, 0))
        nan = or_(a.nan, b.nan, and_(ainf, binf), and_(azero, bzero))
        apos = or_(a.pinf, and_(not_(a.ninf), gt(a.val, 0)))
        bpos = or_(b.pinf, and_(not_(b.ninf), ge(b.val, 0)))
        inf = and_(not_(nan), or_(ainf, bzero))
        samesign = or_(and_(apos, bpos), and_(not_(apos), not_(bpos)))
        val = ite(binf, Fraction(0), truediv_fin(a.val, b.val))
        return xf(val, nan, and_(inf, not_(samesign)), and_(inf, samesign))
    return truediv_fin(a, b)


def truediv_fin(a, b):
    if is_conc(b):
        if b == 0:
            if is_conc(a):
                if a == 0:
                    return XF(Fraction(0), nan=True)
                return XF(Fraction(0), ninf=a < 0, pinf=a > 0)
            return XF(Fraction(0), nan=eq(a, 0), ninf=lt(a, 0), pinf=gt(a, 0))
        if is_conc(a):
            return Fraction(a) / Fraction(b)
        return mul(zr(a), Fraction(1) / Fraction(b))
    # symbolic divisor: value defined through z3's division; callers emit divisor != 0 obligations
    return zr(a) / zr(b)


def floordiv(a, b):
    a, b = num(a), num(b)
    if _both_int(a, b):
        if is_conc(a) and is_conc(b):
            return a // b
        if is_conc(b) and b > 0:
            return unz(z3.simplify(zi(a) / zi(b)))
        return IDIV(zi(a), zi(b))
    if is_conc(a) and is_conc(b):
        return Fraction(a // b)
    raise Unsupported("floor division of floats")


def mod(a, b):
    a, b = num(a), num(b)
    if _both_int(a, b):
        if is_conc(a) and is_conc(b):
            return a % b
        if is_conc(b) and b > 0:
            return unz(z3.simplify(zi(a) % zi(b)))
        return IMOD(zi(a), zi(b))
    if is_conc(a) and is_conc(b):
        return Fraction(a) % Fraction(b)
    if is_conc(b) and b > 0:   # real modulus: a - b*floor(a/b)
        q = z3.ToInt(zr(a) / zr(b))
        return zr(a) - zr(b) * z3.ToReal(q)
    raise Unsupported("modulus")


def abs_(a):
    a = num(a)
    if isinstance(a, XF):
        return xf(abs_(a.val), a.nan, False, or_(a.ninf, a.pinf))
    if is_conc(a):
        return abs(a)
    if is_int(a):
        return z3.If(a >= 0, a, -a)
    return z3.If(a >= 0, a, -a)


def _cmp(a, b, op):
    a, b = num(a), num(b)
    if is_conc(a) and is_conc(b):
        return {"lt": a < b, "le": a <= b, "eq": a == b}[op]
    if same(a, b):
        return op != "lt"
    if _both_int(a, b):
        x, y = zi(a), zi(b)
        t = {"lt": x < y, "le": x <= y, "eq": x == y}[op]
        return unz(z3.simplify(t)) if _small(t) else t
    x, y = zr(a), zr(b)
    # push comparisons of ite-of-constants inside (keeps 0/1 valued arrays propositional)
    for u, v, sw in ((a, b, False), (b, a, True)):
        if is_z3(u) and z3.is_app_of(u, z3.Z3_OP_ITE) and is_conc(v):
            t, e = unz(u.arg(1)), unz(u.arg(2))
            if is_conc(t) or is_conc(e):
                f = (lambda p: _cmp(v, p, op)) if sw else (lambda p: _cmp(p, v, op))
                return ite(u.arg(0), f(t), f(e))
    return {"lt": x < y, "le": x <= y, "eq": x == y}[op]


def _small(t):
    return True


def lt(a, b):
    a, b = num(a), num(b)
    if isinstance(a, XF) or isinstance(b, XF):
        a, b = as_xf(a), as_xf(b)
        ok = and_(not_(a.nan), not_(b.nan))
        fin = and_(not_(a.ninf), not_(a.pinf), not_(b.ninf), not_(b.pinf), _cmp(a.val, b.val, "lt"))
        return and_(ok, or_(fin, and_(a.ninf, not_(b.ninf)), and_(b.pinf, not_(a.pinf))))
    return _cmp(a, b, "lt")


def le(a, b):
    a, b = num(a), num(b)
    if isinstance(a, XF) or isinstance(b, XF):
        a, b = as_xf(a), as_xf(b)
        return and_(not_(a.nan), not_(b.nan), not_(lt(b, a)))
    return _cmp(a, b, "le")


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if is_bool(a) and is_bool(b):
        if isinstance(a, bool):
            a, b = b, a
        if isinstance(b, bool):
            return a if b is True else (not_(a) if b is False else a)
        if same(a, b):
            return True
        return a == b
    a, b = num(a), num(b)
    if isinstance(a, XF) or isinstance(b, XF):
        a, b = as_xf(a), as_xf(b)
        fin = and_(not_(a.ninf), not_(a.pinf), not_(b.ninf), not_(b.pinf), _cmp(a.val, b.val, "eq"))
        return and_(not_(a.nan), not_(b.nan), or_(fin, and_(a.ninf, b.ninf), and_(a.pinf, b.pinf)))
    return _cmp(a, b, "eq")


def ne(a, b):
    return not_(eq(a, b))


def ident(a, b):
    """mathematical identity (NaN identical to NaN) -- used in specifications"""
    if isinstance(a, XF) or isinstance(b, XF):
        a, b = as_xf(a), as_xf(b)
        sp = and_(iff(a.nan, b.nan), iff(a.ninf, b.ninf), iff(a.pinf, b.pinf))
        fin = or_(a.nan, a.ninf, a.pinf, eq(a.val, b.val))
        return and_(sp, fin)
    return eq(a, b)


def iff(a, b):
    return eq(a, b) if not (isinstance(a, bool) and isinstance(b, bool)) else a == b


def max2(a, b):
    return ite(ge(a, b), a, b)


def min2(a, b):
    return ite(le(a, b), a, b)


def isfinite(x):
    return and_(not_(x.nan), not_(x.ninf), not_(x.pinf)) if isinstance(x, XF) else True


def isnan(a):
    return a.nan if isinstance(a, XF) else False


def isninf(a):
    return a.ninf if isinstance(a, XF) else False


def ispinf(a):
    return a.pinf if isinstance(a, XF) else False


def truthy(a):
    a = norm(a)
    if isinstance(a, bool):
        return a
    if isinstance(a, XF):
        return or_(a.nan, a.ninf, a.pinf, ne(a.val, 0))
    if is_conc(a):
        return a != 0
    if is_z3(a):
        if z3.is_bool(a):
            return a
        return ne(a, 0)
    raise Unsupported(f"truth value of {type(a)}")


def to_int(a):
    """int(x) / astype(int): truncation"""
    a = num(a)
    if isinstance(a, XF):
        raise Unsupported("int() of a possibly special float")
    if is_int(a):
        return a
    if isinstance(a, Fraction):
        return int(a)
    # real term: undo ToReal
    if z3.is_app_of(a, z3.Z3_OP_TO_REAL):
        return a.arg(0)
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        return ite(a.arg(0), to_int(unz(a.arg(1))), to_int(unz(a.arg(2))))
    fl = z3.ToInt(a)
    return z3.If(a >= 0, fl, -z3.ToInt(-a))


def to_float(a):
    a = num(a)
    if isinstance(a, XF):
        return a
    if isinstance(a, int):
        return Fraction(a)
    if is_int(a):
        return z3.ToReal(a)
    return a


def cast(a, dtype):
    if dtype == "float":
        return to_float(a)
    if dtype == "int":
        return to_int(a)
    if dtype == "bool":
        return truthy(a)
    return a


def map_terms(x, f):
    """apply f to every z3 term in scalar x"""
    if isinstance(x, XF):
        g = lambda y: unz(f(y)) if is_z3(y) else y
        return xf(g(x.val), g(x.nan), g(x.ninf), g(x.pinf))
    if is_z3(x):
        return unz(f(x))
    return x


def terms_of(x):
    if isinstance(x, XF):
        return [y for y in (x.val, x.nan, x.ninf, x.pinf) if is_z3(y)]
    return [x] if is_z3(x) else []


_occ_cache = {}


def occurs(t, decl_or_const):
    """does a z3 declaration occur in term t"""
    d = decl_or_const.decl() if isinstance(decl_or_const, z3.ExprRef) else decl_or_const
    did = d.get_id()
    for tt in terms_of(t):
        if did in decls_in(tt):
            return True
    return False


def decls_in(t):
    key = t.get_id()
    r = _occ_cache.get(key)
    if r is not None and r[0].eq(t):
        return r[1]
    s = set()
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            s.add(x.decl().get_id())
            stack.extend(x.children())
    if len(_occ_cache) > 200000:
        _occ_cache.clear()
    _occ_cache[key] = (t, s)
    return s


def int_consts(ts):
    """the Int constants of the terms, in the order of their first occurrence"""
    out, seen = [], set()
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if not is_z3(t):
            continue
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_const(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(t):
                out.append(t)
            continue
        stack.extend(reversed(t.children()))
    return out
