"""Library contracts: Python builtins and the part of NumPy / SciPy the repository uses.

Every function here is an *assumed contract* on a dependency (listed in the evidence through I.used_lib)."""
import z3
from fractions import Fraction
from . import terms as T
from .terms import Unsupported, and_, or_, not_, eq, ne, le, lt, ite, implies, is_z3
from .values import *
from .interp import FamListRef, PyCall
from . import arrays
from .arrays import placeholders, in_range, broadcast_reader, map1, map2

LIB, METHODS = {}, {}
SUBMODS = {"numpy.random", "numpy.linalg", "scipy.spatial", "scipy.spatial.distance", "matplotlib.pyplot", "os.path"}
CONSTS = {"numpy.nan": T.norm(float("nan")), "numpy.inf": T.norm(float("inf")), "numpy.NaN": T.norm(float("nan")),
          "numpy.newaxis": None, "numpy.float64": DTypeV("float"), "numpy.float32": DTypeV("float"),
          "numpy.float_": DTypeV("float"), "numpy.int64": DTypeV("int"), "numpy.int32": DTypeV("int"),
          "numpy.int_": DTypeV("int"), "numpy.bool_": DTypeV("bool"), "numpy.pi": Fraction(355, 113),
          "numpy.intp": DTypeV("int")}
SMALL = 8


def lib(*names):
    def d(f):
        for n in names:
            LIB[n] = f
        return f
    return d


def meth(kind, *names):
    def d(f):
        for n in names:
            METHODS[(kind, n)] = f
        return f
    return d


def arg(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def dtype_of(I, d, default="float"):
    d = I.resolve(d) if isinstance(d, Case) else d
    if d is None:
        return default
    if isinstance(d, DTypeV):
        return d.dt
    if isinstance(d, LibV):
        p = d.path.split(".")[-1]
        if p in ("int", "int64", "int32", "int_"):
            return "int"
        if p in ("float", "float64", "float32"):
            return "float"
        if p in ("bool", "bool_"):
            return "bool"
    if isinstance(d, str):
        return {"int": "int", "float": "float", "bool": "bool", "int64": "int", "float64": "float"}[d]
    raise Unsupported(f"dtype {d!r}")


def shape_of(I, s):
    s = I.resolve(s)
    if T.is_scalar(s):
        return (T.to_int(s) if not T.is_int(s) else s,)
    items = I.concrete_items(s)
    if items is None:
        raise Unsupported("symbolic rank")
    return tuple(T.num(I.resolve(x)) for x in items)


def toarr(I, v):
    v = I.resolve(v)
    if isinstance(v, Arr):
        return v
    if isinstance(v, (ListRef, tuple, RangeV, IterV, FamListRef)):
        return np_array(I, [v], {})
    if T.is_scalar(v):
        v = T.norm(v)
        return I.new_arr((), T.kind(v), lambda: v)
    raise Unsupported(f"array from {type(v).__name__}")


def fresh_bv(I, base="b"):
    return z3.Int(I.ctx.name(base))


def clean_reader(I, f, shape):
    """drop special-float flags that are provably false inside the index range"""
    ph = placeholders(I, len(shape))
    b = f(*ph)
    if not isinstance(b, T.XF):
        return f
    g = in_range(ph, shape)
    keep = []
    for nm in ("nan", "ninf", "pinf"):
        c = getattr(b, nm)
        keep.append(not (c is False or I.valid(implies(g, not_(c)))))
    if all(keep):
        return f

    def h(*i):
        x = f(*i)
        if not isinstance(x, T.XF):
            return x
        return T.xf(x.val, x.nan if keep[0] else False, x.ninf if keep[1] else False, x.pinf if keep[2] else False)
    return h


# ---------------- reductions ----------------
def red_fn(I, kind, f, n, extra=0):
    """f(idx..., b) with `extra` leading indices; returns app(*idx)"""
    ph = placeholders(I, extra)
    b = fresh_bv(I)
    return I.ctx.reduction(kind, ph, [b], f(*ph, b), [n])


def sum_over(I, f, n, extra=0):
    """reader of extra indices: sum_b f(*idx,b)"""
    if isinstance(n, int) and n <= SMALL:
        def g(*i):
            r = 0
            for k in range(n):
                r = T.add(r, f(*i, k))
            return r
        return g
    ph = placeholders(I, extra)
    b = fresh_bv(I)
    body = f(*ph, b)
    if isinstance(body, T.XF):
        return xf_sum(I, f, n, extra)
    body = T.num(body)
    app = I.ctx.sum(ph, b, body, n)
    if not extra:
        t = app()
        if is_z3(t) and z3.is_app_of(t, z3.Z3_OP_ITE) and I.valid(t.arg(0), light=True):
            t = T.unz(t.arg(1))
            return lambda: t
    return app


def xf_sum(I, f, n, extra):
    """sum of floats that may be special, as IEEE arithmetic has it: NaN if any is NaN or both infinities occur"""
    flag = lambda nm: (lambda *i: getattr(T.as_xf(f(*i)), nm))
    nan, lo, hi = [any_over(I, flag(nm), n, extra) for nm in ("nan", "ninf", "pinf")]

    def fin(*i):
        x = T.as_xf(f(*i))
        return ite(or_(x.nan, x.ninf, x.pinf), T.Fraction(0), x.val)
    val = sum_over(I, fin, n, extra)

    def g(*i):
        a, l, h = nan(*i), lo(*i), hi(*i)
        isn = or_(a, and_(l, h))
        return T.xf(val(*i), isn, and_(l, not_(isn)), and_(h, not_(isn)))
    return g


def any_over(I, f, n, extra=0):
    if isinstance(n, int) and n <= SMALL:
        return lambda *i: or_(*[T.truthy(f(*i, k)) for k in range(n)])
    ph = placeholders(I, extra)
    b = fresh_bv(I)
    body = T.truthy(f(*ph, b))
    if isinstance(body, bool):
        r = and_(body, lt(0, n))
        return lambda *i: r
    return I.ctx.reduction("any", ph, [b], body, [n])


def all_over(I, f, n, extra=0):
    a = any_over(I, lambda *i: not_(T.truthy(f(*i))), n, extra)
    return lambda *i: not_(a(*i))


def arg_over(I, kind, f, n, extra=0):
    if isinstance(n, int) and n <= SMALL:
        def g(*i):
            best, bi = f(*i, 0), 0
            for k in range(1, n):
                x = f(*i, k)
                c = T.lt(best, x) if kind == "argmax" else T.lt(x, best)
                c = and_(not_(T.isnan(best)), or_(c, T.isnan(x)))
                best, bi = ite(c, x, best), ite(c, k, bi)
            return bi
        return g
    ph = placeholders(I, extra)
    b = fresh_bv(I)
    body = f(*ph, b)
    if not (is_z3(body) or isinstance(body, T.XF)):
        return lambda *i: 0
    if T.is_bool(body):
        body = T.num(body)
    return I.ctx.reduction(kind, ph, [b], body, [n])


def ext_over(I, kind, f, n, extra=0):
    """max / min value"""
    if isinstance(n, int) and n <= SMALL:
        def g(*i):
            best = f(*i, 0)
            for k in range(1, n):
                x = f(*i, k)
                c = T.lt(best, x) if kind == "max" else T.lt(x, best)
                c = and_(not_(T.isnan(best)), or_(c, T.isnan(x)))
                best = ite(c, x, best)
            return best
        return g
    w = arg_over(I, "arg" + kind, f, n, extra)
    return lambda *i: f(*i, w(*i))


def axis_norm(I, a, axis):
    axis = I.resolve(axis)
    if axis is None:
        return None
    if isinstance(axis, int):
        return axis % a.ndim
    raise Unsupported("axis")


def reduce(I, v, axis, over, dt):
    """over(I, f, n, extra) -> reader; nested over all axes when axis is None"""
    a = toarr(I, v)
    f = I.arr_fn(a)
    ax = axis_norm(I, a, axis)
    if ax is None:
        g = f
        for j in range(a.ndim - 1, -1, -1):
            g = over(I, g, a.shape[j], j)
        return g()
    nd = a.ndim
    rest = [j for j in range(nd) if j != ax]

    def ff(*i):
        idx = [None] * nd
        for p, j in enumerate(rest):
            idx[j] = i[p]
        idx[ax] = i[-1]
        return f(*idx)
    g = over(I, ff, a.shape[ax], nd - 1)
    if nd == 1:
        return g()
    return I.new_arr([a.shape[j] for j in rest], dt or arrays.infer_dtype(I, g, nd - 1), g)


def nonempty(I, a, what):
    n = I.size(a)
    if isinstance(n, int):
        if n == 0:
            I.raise_("ValueError")
        return
    for d in a.shape:
        c = lt(0, d)
        if not I.valid(c):
            if I.in_try:
                if not I.decide(c):
                    I.raise_("ValueError")
            else:
                I.oblige(f"{what} of a non-empty array", c)


@lib("numpy.sum")
def np_sum(I, args, kw):
    a = toarr(I, args[0])
    ax = arg(args, kw, 1, "axis")
    dt = I.arr_dtype(a)
    f = clean_reader(I, I.arr_fn(a), a.shape)
    b = I.new_arr(a.shape, dt, f)
    return reduce(I, b, ax, sum_over, "int" if dt in ("int", "bool") else "float")


@lib("numpy.prod", "numpy.product")
def np_prod(I, args, kw):
    v = I.resolve(args[0])
    items = I.concrete_items(v)
    if items is None:
        raise Unsupported("product of a symbolic sequence")
    r = 1
    for x in items:
        r = T.mul(r, I.resolve(x))
    return r


@lib("numpy.mean")
def np_mean(I, args, kw):
    a = toarr(I, args[0])
    ax = arg(args, kw, 1, "axis")
    s = np_sum(I, [a, ax], {})
    n = I.size(a) if ax is None else a.shape[axis_norm(I, a, ax)]
    return I.binop("Div", s, n)


@lib("numpy.any")
def np_any(I, args, kw):
    v = I.resolve(args[0])
    if T.is_scalar(v):
        return T.truthy(v)
    return reduce(I, v, arg(args, kw, 1, "axis"), any_over, "bool")


@lib("numpy.all")
def np_all(I, args, kw):
    v = I.resolve(args[0])
    if T.is_scalar(v):
        return T.truthy(v)
    return reduce(I, v, arg(args, kw, 1, "axis"), all_over, "bool")


def np_ext(kind):
    def h(I, args, kw):
        a = toarr(I, args[0])
        nonempty(I, a, kind)
        return reduce(I, a, arg(args, kw, 1, "axis"), lambda I, f, n, e: ext_over(I, kind, f, n, e), I.arr_dtype(a))
    return h


LIB["numpy.max"] = LIB["numpy.amax"] = np_ext("max")
LIB["numpy.min"] = LIB["numpy.amin"] = np_ext("min")


def np_arg(kind):
    def h(I, args, kw):
        a = toarr(I, args[0])
        nonempty(I, a, kind)
        ax = arg(args, kw, 1, "axis")
        if ax is None and a.ndim > 1:
            raise Unsupported("flattened " + kind)
        return reduce(I, a, 0 if a.ndim == 1 else ax, lambda I, f, n, e: arg_over(I, kind, f, n, e), "int")
    return h


LIB["numpy.argmax"] = np_arg("argmax")
LIB["numpy.argmin"] = np_arg("argmin")


def np_nan_ext(kind):
    def h(I, args, kw):
        a = toarr(I, args[0])
        f = I.arr_fn(a)

        def g(*i):
            x = f(*i)
            if isinstance(x, T.XF):
                bad = T.xf(Fraction(0), False, kind == "max", kind == "min")
                return ite(x.nan, bad, T.xf(x.val, False, x.ninf, x.pinf))
            return x
        b = I.new_arr(a.shape, "float", g)
        nonempty(I, a, kind)
        r = reduce(I, b, arg(args, kw, 1, "axis"), lambda I, f, n, e: ext_over(I, kind, f, n, e), "float")
        # all NaN -> NaN
        allnan = reduce(I, map1(I, a, T.isnan, "bool"), arg(args, kw, 1, "axis"), all_over, "bool")
        return map2(I, allnan, r, lambda c, x: ite(c, T.norm(float("nan")), x), "float")
    return h


LIB["numpy.nanmax"] = np_nan_ext("max")
LIB["numpy.nanmin"] = np_nan_ext("min")


@lib("numpy.nanmean")
def np_nanmean(I, args, kw):
    """only the special-value structure of the result is specified: NaN iff every entry is NaN or both
    infinities occur; -inf iff not NaN and some entry is -inf.  The finite value is left unspecified."""
    a = toarr(I, args[0])
    ax = arg(args, kw, 1, "axis")
    f = I.arr_fn(a)
    isn = map1(I, a, T.isnan, "bool")
    allnan = reduce(I, isn, ax, all_over, "bool")
    anyn = reduce(I, map1(I, a, T.isninf, "bool"), ax, any_over, "bool")
    anyp = reduce(I, map1(I, a, T.ispinf, "bool"), ax, any_over, "bool")
    nd = 0 if not isinstance(allnan, Arr) else allnan.ndim
    val = I.ctx.fresh_fn("nanmean", nd, z3.RealSort())

    def comb(c, n, p, v):
        nan = or_(c, and_(n, p))
        return T.xf(v, nan, and_(not_(nan), n), and_(not_(nan), p))
    if nd == 0:
        return comb(allnan, anyn, anyp, val())
    fa, fn_, fp = I.arr_fn(allnan), I.arr_fn(anyn), I.arr_fn(anyp)
    return I.new_arr(allnan.shape, "float", lambda *i: comb(fa(*i), fn_(*i), fp(*i), val(*i)))


# ---------------- construction ----------------
def np_fill(val, dflt):
    def h(I, args, kw):
        sh = shape_of(I, arg(args, kw, 0, "shape"))
        dt = dtype_of(I, arg(args, kw, 1, "dtype"), dflt)
        for d in sh:
            if isinstance(d, int) and d < 0:
                I.raise_("ValueError")
            if not isinstance(d, int) and not I.valid(le(0, d)):
                if I.in_try:
                    raise Unsupported("possibly negative dimension inside try")
                I.oblige("array dimension is non-negative", le(0, d))
        v = T.cast(T.norm(val), dt)
        return I.new_arr(sh, dt, lambda *i: v)
    return h


LIB["numpy.zeros"] = np_fill(0, "float")
LIB["numpy.ones"] = np_fill(1, "float")


@lib("numpy.empty")
def np_empty(I, args, kw):
    sh = shape_of(I, arg(args, kw, 0, "shape"))
    dt = dtype_of(I, arg(args, kw, 1, "dtype"), "float")
    return I.new_arr(sh, dt, I.ctx.fresh_fn_dtype("empty", len(sh), dt))


@lib("numpy.full")
def np_full(I, args, kw):
    sh = shape_of(I, arg(args, kw, 0, "shape"))
    v = T.norm(I.resolve(arg(args, kw, 1, "fill_value")))
    dt = dtype_of(I, arg(args, kw, 2, "dtype"), T.kind(v))
    v = T.cast(v, dt)
    return I.new_arr(sh, dt, lambda *i: v)


def np_like(val):
    def h(I, args, kw):
        a = toarr(I, args[0])
        dt = dtype_of(I, arg(args, kw, 1, "dtype"), I.arr_dtype(a))
        v = T.cast(T.norm(val), dt)
        return I.new_arr(a.shape, dt, lambda *i: v)
    return h


LIB["numpy.zeros_like"] = np_like(0)
LIB["numpy.ones_like"] = np_like(1)


@lib("numpy.full_like")
def np_full_like(I, args, kw):
    a = toarr(I, args[0])
    v = T.cast(T.norm(I.resolve(args[1])), dtype_of(I, kw.get("dtype"), I.arr_dtype(a)))
    return I.new_arr(a.shape, I.arr_dtype(a), lambda *i: v)


@lib("numpy.eye", "numpy.identity")
def np_eye(I, args, kw):
    n = T.num(I.resolve(args[0]))
    dt = dtype_of(I, kw.get("dtype"), "float")
    return I.new_arr((n, n), dt, lambda i, j: T.cast(ite(eq(i, j), 1, 0), dt))


@lib("numpy.arange")
def np_arange(I, args, kw):
    a = [T.num(I.resolve(x)) for x in args]
    if not all(T.is_int(x) for x in a):
        raise Unsupported("float arange")
    r = RangeV(0, a[0], 1) if len(a) == 1 else RangeV(a[0], a[1], a[2] if len(a) > 2 else 1)
    n = r.length()
    if len(a) == 1 and I.valid(le(0, a[0])):
        n = a[0]
    dt = dtype_of(I, kw.get("dtype"), "int")
    return I.new_arr((n,), dt, lambda k: T.cast(r.at(k), dt))


@lib("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray")
def np_array(I, args, kw):
    v = I.resolve(args[0])
    dt = arg(args, kw, 1, "dtype")
    if isinstance(v, Arr):
        a = v
        f, d0 = I.arr_fn(a), I.arr_dtype(a)
        d = dtype_of(I, dt, d0)
        return I.new_arr(a.shape, d, (lambda *i: T.cast(f(*i), d)) if d != d0 else f)
    if v is None:
        return Opaque("array(None)")
    if T.is_scalar(v):
        v = T.norm(v)
        d = dtype_of(I, dt, T.kind(v))
        return I.new_arr((), d, lambda: T.cast(v, d))
    items = I.concrete_items(v)
    if items is None and isinstance(v, (ListRef, RangeV, IterV, FamListRef)):
        n = I.length(v)
        k = fresh_bv(I, "ak")
        e = I.iter_at(v, k)
        at = (lambda c: lambda k: c.at(k))(I.st.heap[v.cid]) if isinstance(v, ListRef) else (lambda k: I.iter_at(v, k))
        if T.is_scalar(e):
            d = dtype_of(I, dt, T.kind(T.norm(e)))
            return I.new_arr((n,), d, lambda k: T.cast(at(k), d))
        if isinstance(e, tuple) and all(T.is_scalar(x) for x in e):
            d = dtype_of(I, dt, "int" if all(T.is_int(x) for x in e) else "float")

            def fn(k, j):
                t = at(k)
                r = t[-1]
                for q in range(len(t) - 2, -1, -1):
                    r = ite(eq(j, q), t[q], r)
                return T.cast(r, d)
            return I.new_arr((n, len(e)), d, fn)
        if isinstance(e, Arr):
            d = dtype_of(I, dt, I.arr_dtype(e))
            sh = e.shape
            if any(T.occurs(x, k) for x in sh):
                raise Unsupported("ragged array")
            return I.new_arr((n,) + tuple(sh), d, lambda k, *i: T.cast(I.arr_fn(at(k))(*i), d))
        raise Unsupported("array of a symbolic sequence")
    if items is None:
        raise Unsupported(f"array from {type(v).__name__}")
    items = [I.resolve(x) for x in items]
    if not items:
        return I.new_arr((0,), dtype_of(I, dt, "float"), lambda i: Fraction(0))
    if all(T.is_scalar(x) for x in items):
        items = [T.norm(x) for x in items]
        ks = {T.kind(x) for x in items}
        d = dtype_of(I, dt, "float" if "float" in ks else ("int" if "int" in ks else "bool"))
        its = [T.cast(x, d) for x in items]
        m = len(its)

        def fn(i):
            if isinstance(i, int):
                return its[i] if 0 <= i < m else its[-1]
            r = its[-1]
            for q in range(m - 2, -1, -1):
                r = ite(eq(i, q), its[q], r)
            return r
        return I.new_arr((m,), d, fn)
    if any(isinstance(x, str) for x in items):
        return Opaque("array of strings")
    return stack(I, [toarr(I, x) for x in items], dt)


def stack(I, arrs, dt=None):
    sh = arrs[0].shape
    fs = [I.arr_fn(arrs[0])]
    for a in arrs[1:]:
        if a.ndim != len(sh):
            I.raise_("ValueError")
        fs.append(broadcast_reader(I, a, sh, "stacked shapes agree"))
    ds = {I.arr_dtype(a) for a in arrs}
    d = dtype_of(I, dt, "float" if "float" in ds else ("int" if "int" in ds else "bool"))
    m = len(fs)

    def fn(k, *i):
        if isinstance(k, int):
            return T.cast(fs[min(max(k, 0), m - 1)](*i), d)
        r = fs[-1](*i)
        for q in range(m - 2, -1, -1):
            r = ite(eq(k, q), fs[q](*i), r)
        return T.cast(r, d)
    return I.new_arr((m,) + tuple(sh), d, fn)


@lib("numpy.stack")
def np_stack(I, args, kw):
    v = I.resolve(args[0])
    if arg(args, kw, 1, "axis", 0) != 0:
        raise Unsupported("stack axis")
    items = I.concrete_items(v)
    if items is None:
        return np_array(I, [v], {})
    if not items:
        I.raise_("ValueError")
    return stack(I, [toarr(I, x) for x in items])


@lib("numpy.vstack", "numpy.concatenate")
def np_vstack(I, args, kw):
    items = I.concrete_items(I.resolve(args[0]))
    if items is None:
        raise Unsupported("concatenation of a symbolic sequence")
    arrs = [toarr(I, x) for x in items]
    if arg(args, kw, 1, "axis", 0) != 0:
        raise Unsupported("concatenation axis")
    if any(a.ndim == 1 for a in arrs) and any(a.ndim == 2 for a in arrs):
        arrs = [a if a.ndim == 2 else I.getitem(a, (None, SliceV(None, None, None))) for a in arrs]
    sh = arrs[0].shape[1:]
    parts, n = [], 0
    for a in arrs:
        f = I.arr_fn(a)
        for x, y in zip(a.shape[1:], sh):
            if not T.same(x, y):
                if isinstance(x, int) and isinstance(y, int):
                    I.raise_("ValueError")
                if not I.valid(eq(x, y)):
                    I.oblige("concatenated shapes agree", eq(x, y))
        parts.append((n, f))
        n = T.add(n, a.shape[0])
    ds = {I.arr_dtype(a) for a in arrs}
    d = "float" if "float" in ds else ("int" if "int" in ds else "bool")

    def fn(i, *r):
        v = parts[-1][1](T.sub(i, parts[-1][0]), *r)
        for q in range(len(parts) - 2, -1, -1):
            o, f = parts[q]
            v = ite(lt(i, parts[q + 1][0]), T.cast(f(T.sub(i, o), *r), d), v)
        return T.cast(v, d)
    return I.new_arr((n,) + tuple(sh), d, fn)


@lib("numpy.append")
def np_append(I, args, kw):
    if kw or len(args) > 2:
        raise Unsupported("append axis")
    return np_vstack(I, [(toarr(I, args[0]), I.lib1("numpy.atleast_1d", args[1]))], {})


@lib("numpy.atleast_1d")
def np_atleast(I, args, kw):
    a = toarr(I, args[0])
    if a.ndim == 0:
        f = I.arr_fn(a)
        return I.new_arr((1,), I.arr_dtype(a), lambda i: f())
    return a


@lib("numpy.delete")
def np_delete(I, args, kw):
    a = toarr(I, args[0])
    i = T.num(I.resolve(args[1]))
    ax = arg(args, kw, 2, "axis")
    if not T.is_int(i) or (ax not in (0, None)) or (ax is None and a.ndim != 1):
        raise Unsupported("delete")
    i = arrays.norm_index(I, i, a.shape[0])
    f = I.arr_fn(a)
    return I.new_arr((T.sub(a.shape[0], 1),) + tuple(a.shape[1:]), I.arr_dtype(a),
                     lambda k, *r: f(ite(lt(k, i), k, T.add(k, 1)), *r))


@lib("numpy.split", "numpy.array_split")
def np_split(I, args, kw):
    a = toarr(I, args[0])
    m = T.num(I.resolve(args[1]))
    if a.ndim != 1 or not T.is_int(m) or len(args) > 2 or kw:
        raise Unsupported("split")
    n = a.shape[0]
    if not I.valid(lt(0, m)):
        I.oblige("split into a positive number of parts", lt(0, m))
    ln = None
    if is_z3(n) and n.decl().eq(T.IMUL):
        x, y = n.arg(0), n.arg(1)
        if x.eq(T.zi(m)):
            ln = y
        elif y.eq(T.zi(m)):
            ln = x
    if ln is None and isinstance(m, int) and m == 1:
        ln = n
    if ln is None:
        q = T.floordiv(n, m)
        g = eq(T.mul(q, m), n)
        if not I.valid(g):
            I.oblige("array splits evenly", g)
        ln = q
    axes = a.axes if a.axes is not None else [("a", 0, 0, 1)]

    def part(k):
        st = T.mul(k, ln)
        return arrays.arr_view(I, a, [None]) if False else _subview(a, axes, st, ln)
    if isinstance(m, int):
        return I.new_list([part(k) for k in range(m)])
    return I.new_list(None, m, part)


def _subview(a, axes, st, ln):
    out = []
    for x in axes:
        if x[0] == "f":
            out.append(x)
        else:
            _, j, s, step = x
            out.append(("a", j, T.add(s, T.mul(step, st)), step))
    return Arr(a.cid, (ln,), out)


@lib("numpy.copy")
def np_copy(I, args, kw):
    return np_array(I, [toarr(I, args[0])], {})


@lib("numpy.repeat")
def np_repeat(I, args, kw):
    a = toarr(I, args[0])
    n = T.num(I.resolve(args[1]))
    if a.ndim != 1 or not T.is_int(n):
        raise Unsupported("repeat")
    f = I.arr_fn(a)
    return I.new_arr((T.mul(a.shape[0], n),), I.arr_dtype(a), lambda k: f(T.floordiv(k, n)))


@lib("numpy.tile")
def np_tile(I, args, kw):
    raise Unsupported("tile")


# ---------------- queries ----------------
@lib("numpy.where")
def np_where(I, args, kw):
    if len(args) == 3:
        c, a, b = args
        cv = toarr(I, c)
        x = map2(I, cv, a, lambda c, x: (c, x), "bool") if False else None
        sh = cv.shape
        for q in (a, b):
            q = I.resolve(q)
            if isinstance(q, Arr):
                sh = arrays.bshape(I, sh, q.shape)
        rc, ra, rb = (broadcast_reader(I, q, sh) for q in (cv, a, b))
        fn = lambda *i: ite(T.truthy(rc(*i)), ra(*i), rb(*i))
        if not sh:
            return fn()
        return I.new_arr(sh, arrays.infer_dtype(I, fn, len(sh)), fn)
    a = toarr(I, args[0])
    f = I.arr_fn(a)
    if a.ndim == 1:
        return (where1(I, lambda i: T.truthy(f(i)), a.shape[0]),)
    if a.ndim == 2:
        cnt, a0, a1, _ = where2(I, lambda i, j: T.truthy(f(i, j)), a.shape)
        return (I.new_arr((cnt,), "int", a0), I.new_arr((cnt,), "int", a1))
    raise Unsupported("where on more than two dimensions")


LIB["numpy.nonzero"] = np_where


def where1(I, mask, n):
    if isinstance(n, int) and n <= SMALL:
        ms = [T.simp(mask(i)) if is_z3(mask(i)) else mask(i) for i in range(n)]
        if all(isinstance(m, bool) for m in ms):
            idx = [i for i in range(n) if ms[i]]
            a = np_array(I, [I.new_list(idx)], {}) if idx else I.new_arr((0,), "int", lambda i: 0)
            return a
    b = fresh_bv(I)
    body = mask(b)
    if isinstance(body, bool):
        if body:
            return I.new_arr((n,), "int", lambda k: k, note=("where1", lambda i: True, lambda i: i))
        return I.new_arr((0,), "int", lambda k: 0)
    cnt, at, rank = I.ctx.reduction("where1", [], [b], body, [n])()
    return I.new_arr((cnt,), "int", at, note=("where1", mask, rank))


def where2(I, mask, shape):
    b0, b1 = fresh_bv(I), fresh_bv(I)
    body = mask(b0, b1)
    n0, n1 = shape
    if body is True:
        c = T.mul(n0, n1)
        if not isinstance(n1, int) and not I.valid(lt(0, n1)):
            # an empty second axis gives no entries at all
            pass
        return c, (lambda k: T.floordiv(k, n1)), (lambda k: T.mod(k, n1)), (lambda i, j: T.add(T.mul(i, n1), j))
    if body is False:
        return 0, (lambda k: 0), (lambda k: 0), (lambda i, j: 0)
    return I.ctx.reduction("where2", [], [b0, b1], body, [n0, n1])()


@lib("numpy.argwhere")
def np_argwhere(I, args, kw):
    a = toarr(I, args[0])
    f = I.arr_fn(a)
    if a.ndim == 1:
        w = where1(I, lambda i: T.truthy(f(i)), a.shape[0])
        g = I.arr_fn(w)
        return I.new_arr((w.shape[0], 1), "int", lambda k, j: g(k), note=("argwhere1", I.st.heap[w.cid].note))
    if a.ndim == 2:
        cnt, a0, a1, _ = where2(I, lambda i, j: T.truthy(f(i, j)), a.shape)
        return I.new_arr((cnt, 2), "int", lambda k, j: ite(eq(j, 0), a0(k), a1(k)))
    raise Unsupported("argwhere on more than two dimensions")


@lib("numpy.flatnonzero")
def np_flatnonzero(I, args, kw):
    a = toarr(I, args[0])
    if a.ndim != 1:
        raise Unsupported("flatnonzero")
    return np_where(I, [a], {})[0]


@lib("numpy.count_nonzero")
def np_count_nonzero(I, args, kw):
    return np_sum(I, [map1(I, toarr(I, args[0]), T.truthy, "bool"), arg(args, kw, 1, "axis")], {})


@lib("numpy.isin", "numpy.in1d")
def np_isin(I, args, kw):
    a, vals = I.resolve(args[0]), I.resolve(args[1])
    items = I.concrete_items(vals)
    if items is not None:
        its = [I.resolve(x) for x in items]
        return map1(I, a, lambda x: or_(*[eq(x, y) for y in its]), "bool")
    b = toarr(I, vals)
    g = I.arr_fn(b)

    def test(x):
        k = fresh_bv(I)
        body = eq(x, g(k))
        ph = []
        # x may contain placeholders: parametrise over them is left to the caller
        raise Unsupported("isin with a symbolic value list")
    f = I.arr_fn(toarr(I, a))
    aa = toarr(I, a)
    app = any_over(I, lambda *i: eq(f(*i[:-1]), g(i[-1])), b.shape[0], aa.ndim)
    return I.new_arr(aa.shape, "bool", app)


def elem(name, f, dt=None):
    def h(I, args, kw):
        r = map1(I, args[0], f, dt)
        return r
    LIB[name] = h
    return h


elem("numpy.isnan", T.isnan, "bool")
elem("numpy.isinf", lambda x: or_(T.isninf(x), T.ispinf(x)), "bool")
elem("numpy.isneginf", T.isninf, "bool")
elem("numpy.isposinf", T.ispinf, "bool")
elem("numpy.isfinite", lambda x: not_(or_(T.isnan(x), T.isninf(x), T.ispinf(x))), "bool")
elem("numpy.abs", T.abs_)
elem("numpy.absolute", T.abs_)
elem("numpy.negative", T.neg)
elem("numpy.logical_not", lambda x: not_(T.truthy(x)), "bool")
elem("numpy.sign", lambda x: ite(lt(0, x), 1, ite(lt(x, 0), -1, 0)))
elem("numpy.square", lambda x: T.mul(x, x))
LIB["builtins.abs"] = LIB["numpy.abs"]


def exp_(x):
    x = T.norm(x)
    if isinstance(x, T.XF):
        return T.xf(ite(x.ninf, Fraction(0), exp_(x.val)), x.nan, False, x.pinf)
    if T.is_conc(x) and x == 0:
        return Fraction(1)
    return T.EXP(T.zr(x))


def log_(x):
    x = T.norm(x)
    if isinstance(x, T.XF):
        raise Unsupported("log of special floats")
    if T.is_conc(x) and x == 1:
        return Fraction(0)
    if T.is_conc(x) and x > 0:
        return T.LOG(T.zr(x))
    return T.xf(T.LOG(T.zr(x)), lt(x, 0), eq(x, 0), False)


def sqrt_(x):
    x = T.norm(x)
    if isinstance(x, T.XF):
        neg = and_(not_(x.nan), not_(x.ninf), not_(x.pinf), lt(x.val, 0))
        return T.xf(T.SQRT(T.zr(x.val)), or_(x.nan, x.ninf, neg), False, x.pinf)
    if T.is_conc(x):
        import math
        if x >= 0:
            r = Fraction(math.isqrt(int(x))) if T.is_int(x) or x.denominator == 1 else None
            if r is not None and r * r == x:
                return r
    return T.xf(T.SQRT(T.zr(x)), lt(x, 0))


def elem_clean(name, f):
    """elementwise function whose special-float flags are dropped when provably absent"""
    def h(I, args, kw):
        v = I.resolve(args[0])
        if isinstance(v, (ListRef, tuple)):
            v = toarr(I, v)
        if T.is_scalar(v):
            r = f(v)
            if isinstance(r, T.XF):
                r = T.xf(r.val, *[False if (c is False or I.valid(not_(c))) else c for c in (r.nan, r.ninf, r.pinf)])
            return r
        g = clean_reader(I, I.arr_fn(v), v.shape)
        out = clean_reader(I, lambda *i: f(g(*i)), v.shape)
        return I.new_arr(v.shape, "float", out)
    LIB[name] = h


elem_clean("numpy.exp", exp_)
elem_clean("numpy.log", log_)
elem_clean("numpy.sqrt", sqrt_)
elem("numpy.tanh", lambda x: T.TANH(T.zr(x)), "float")


@lib("numpy.floor", "math.floor")
def np_floor(I, args, kw):
    def f(x):
        x = T.num(x)
        if T.is_int(x):
            return x
        if T.is_conc(x):
            return Fraction(x.numerator // x.denominator)
        return T.to_float(z3.ToInt(T.zr(x)))
    return map1(I, args[0], f, None)


def el2(name, f, dt=None):
    def h(I, args, kw):
        return map2(I, args[0], args[1], f, dt)
    LIB[name] = h


el2("numpy.maximum", T.max2)
el2("numpy.minimum", T.min2)
el2("numpy.logical_and", lambda a, b: and_(T.truthy(a), T.truthy(b)), "bool")
el2("numpy.logical_or", lambda a, b: or_(T.truthy(a), T.truthy(b)), "bool")
el2("numpy.bitwise_and", arrays.bitand)
el2("numpy.bitwise_or", arrays.bitor)
el2("numpy.equal", T.eq, "bool")
el2("numpy.not_equal", T.ne, "bool")
el2("numpy.greater", T.gt, "bool")
el2("numpy.less", T.lt, "bool")


def _op(name, op):
    LIB[name] = lambda I, args, kw: I.binop(op, args[0], args[1])


for _n, _o in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div"),
               ("mod", "Mod"), ("remainder", "Mod"), ("floor_divide", "FloorDiv"), ("matmul", "MatMult")):
    _op("numpy." + _n, _o)


@lib("numpy.power", "builtins.pow", "numpy.float_power")
def np_power(I, args, kw):
    a, b = I.resolve(args[0]), I.resolve(args[1])
    if T.is_scalar(a) and T.is_scalar(b) and T.is_int(T.num(a)) and T.is_int(T.num(b)):
        if isinstance(b, int) and b < 0:
            I.raise_("ValueError")      # numpy: integers to negative integer powers
        if not isinstance(b, int) and not I.valid(le(0, b)):
            if not I.decide(le(0, b)):
                I.raise_("ValueError")
    return map2(I, a, b, arrays.power, None)


@lib("numpy.dot")
def np_dot(I, args, kw):
    a, b = toarr(I, args[0]), toarr(I, args[1])
    fa, fb = clean_reader(I, I.arr_fn(a), a.shape), clean_reader(I, I.arr_fn(b), b.shape)
    if a.ndim == 0 or b.ndim == 0:
        return I.binop("Mult", args[0], args[1])
    n = a.shape[-1]
    m = b.shape[0] if b.ndim == 1 else b.shape[-2]
    if not T.same(n, m):
        if isinstance(n, int) and isinstance(m, int):
            I.raise_("ValueError")
        if not I.valid(eq(n, m)):
            I.oblige("dot product dimensions agree", eq(n, m))
    na = a.ndim - 1
    nb = b.ndim - 1
    if b.ndim > 2:
        raise Unsupported("dot with 3-D right operand")

    def f(*i):
        ia, ib, k = i[:na], i[na:na + nb], i[-1]
        return T.mul(fa(*ia, k), fb(k, *ib))
    g = sum_over(I, f, n, na + nb)
    sh = a.shape[:-1] + (() if b.ndim == 1 else b.shape[-1:])
    if not sh:
        return g()
    dt = "int" if I.arr_dtype(a) != "float" and I.arr_dtype(b) != "float" else "float"
    return I.new_arr(sh, dt, g)


@lib("numpy.cumsum")
def np_cumsum(I, args, kw):
    a = toarr(I, args[0])
    if a.ndim != 1:
        raise Unsupported("cumsum")
    f = clean_reader(I, I.arr_fn(a), a.shape)
    ctx = I.ctx
    isint = I.arr_dtype(a) != "float"
    c = ctx.fresh_fn("cumsum", 1, z3.IntSort() if isint else z3.RealSort())
    n = a.shape[0]
    t = z3.Int(ctx.name("t"))
    ctx.assume_forall([t], implies(and_(le(0, t), lt(t, n)), eq(c(t), T.add(c(T.sub(t, 1)), T.num(f(t))))), "cumsum step")
    I.st.pc.append(eq(c(-1), 0))
    tot = sum_over(I, lambda k: f(k), n, 0)()
    I.st.pc.append(eq(c(T.sub(n, 1)), tot))
    # lemma (induction): a prefix of a non-negative sequence is non-negative and bounded by the total; monotone
    ok = I.valid(implies(and_(le(0, t), lt(t, n)), le(0, T.num(f(t)))))
    if ok:
        ctx.assume_forall([t], implies(and_(le(0, t), lt(t, n)), and_(le(0, c(t)), le(c(t), tot))), "cumsum bounds")
    return I.new_arr((n,), I.arr_dtype(a) if isint else "float", lambda k: c(k), note=("cumsum", ok))


@lib("numpy.searchsorted")
def np_searchsorted(I, args, kw):
    a = toarr(I, args[0])
    v = I.resolve(args[1])
    side = arg(args, kw, 2, "side", "left")
    note = I.st.heap[a.cid].note if a.axes is None else None
    if a.ndim != 1 or not T.is_scalar(v) or not (note and note[0] == "cumsum" and note[1]):
        raise Unsupported("searchsorted on an array not known to be sorted")
    f = I.arr_fn(a)
    n = a.shape[0]
    r = I.ctx.choice(I, "ss", z3.IntSort())
    below = (lambda x: le(x, v)) if side == "right" else (lambda x: lt(x, v))
    I.assume(and_(le(0, r), le(r, n)), "searchsorted")
    I.assume(implies(lt(0, r), below(f(T.sub(r, 1)))), "searchsorted")
    I.assume(implies(lt(r, n), not_(below(f(r)))), "searchsorted")
    return r


@lib("numpy.linalg.inv")
def np_inv(I, args, kw):
    """assumed: A @ inv(A) = inv(A) @ A = identity (A must be invertible: not checked)"""
    a = toarr(I, args[0])
    if a.ndim != 2:
        raise Unsupported("inv")
    f = I.arr_fn(a)
    n = a.shape[0]
    g = I.ctx.fresh_fn("inv", 2, z3.RealSort())
    i, j = z3.Int(I.ctx.name("i")), z3.Int(I.ctx.name("j"))
    b = fresh_bv(I)
    for x, y in ((f, g), (g, f)):
        s = sum_over(I, lambda p, q, k: T.mul(x(p, k), y(k, q)), n, 2)
        inr = and_(le(0, i), lt(i, n), le(0, j), lt(j, n))
        I.ctx.assume_forall([i, j], implies(inr, eq(s(i, j), ite(eq(i, j), Fraction(1), Fraction(0)))), "inverse",
                            extra_pats=[g(i, j)])
    return I.new_arr((n, n), "float", lambda p, q: g(p, q))


@lib("numpy.unravel_index")
def np_unravel(I, args, kw):
    s = I.resolve(args[0])
    sh = shape_of(I, args[1])
    if isinstance(s, tuple) and len(s) == 1:
        s = I.resolve(s[0])
    if len(sh) != 2:
        raise Unsupported("unravel_index rank")
    W, H = sh
    if T.is_scalar(s):
        g = and_(le(0, s), lt(s, T.mul(W, H)))
        if g is False:
            I.raise_("ValueError")
        if not I.valid(g):
            if I.in_try:
                raise Unsupported("unravel_index in try")
            I.oblige("flat index in range", g)
        return (T.floordiv(s, H), T.mod(s, H))
    a = toarr(I, s)
    f = I.arr_fn(a)
    return (I.new_arr(a.shape, "int", lambda *i: T.floordiv(f(*i), H)),
            I.new_arr(a.shape, "int", lambda *i: T.mod(f(*i), H)))


@lib("numpy.ravel_multi_index")
def np_ravel_multi(I, args, kw):
    idx = I.concrete_items(I.resolve(args[0]))
    sh = shape_of(I, args[1])
    if idx is None or len(idx) != 2 or len(sh) != 2:
        raise Unsupported("ravel_multi_index rank")
    x, y = (I.resolve(v) for v in idx)
    W, H = sh
    if not (T.is_scalar(x) and T.is_scalar(y)):
        raise Unsupported("ravel_multi_index of arrays")
    g = and_(le(0, x), lt(x, W), le(0, y), lt(y, H))
    if g is False or not I.valid(g):
        # numpy raises ValueError for coordinates outside the grid
        if g is False or not I.decide(g):
            I.raise_("ValueError")
    return T.add(T.mul(x, H), y)


@lib("scipy.spatial.distance.cdist")
def sp_cdist(I, args, kw):
    if len(args) > 2 or kw:
        raise Unsupported("cdist metric")
    a, b = toarr(I, args[0]), toarr(I, args[1])
    if a.ndim != 2 or b.ndim != 2:
        I.raise_("ValueError")
    d = a.shape[1]
    if not isinstance(d, int):
        raise Unsupported("cdist of symbolic dimension")
    fa, fb = I.arr_fn(a), I.arr_fn(b)

    def fn(i, j):
        s = 0
        for k in range(d):
            x = T.sub(fa(i, k), fb(j, k))
            s = T.add(s, T.mul(x, x))
        return T.SQRT(T.zr(s))
    return I.new_arr((a.shape[0], b.shape[0]), "float", fn)


@lib("numpy.reshape")
def np_reshape(I, args, kw):
    a = toarr(I, args[0])
    if len(args) > 2 or kw.get("order", "C") not in ("C",):
        raise Unsupported("reshape order")
    return reshape(I, a, shape_of(I, args[1]))


def reshape(I, a, sh):
    sh = list(sh)
    if a.ndim == len(sh) and all(T.same(x, y) for x, y in zip(a.shape, sh)):
        return a
    f, dt = I.arr_fn(a), I.arr_dtype(a)
    if len(sh) == 1 and isinstance(sh[0], int) and sh[0] == -1:
        return ravel(I, a)
    if a.ndim == 1 and len(sh) == 2:
        W, H = sh
        if isinstance(W, int) and W == -1:
            raise Unsupported("reshape -1")
        if isinstance(H, int) and H == -1:
            if isinstance(W, int) and W == 1:
                return I.new_arr((1, a.shape[0]), dt, lambda i, j: f(j))
            raise Unsupported("reshape -1")
        g = eq(a.shape[0], T.mul(W, H))
        if not I.valid(g):
            if I.in_try:
                raise Unsupported("reshape in try")
            I.oblige("reshape preserves the number of elements", g)
        return I.new_arr((W, H), dt, lambda i, j: f(T.add(T.mul(i, H), j)))
    if a.ndim == 2 and len(sh) == 3 and T.same(a.shape[0], sh[0]):
        _, W, H = sh
        g = eq(a.shape[1], T.mul(W, H))
        if not I.valid(g):
            I.oblige("reshape preserves the number of elements", g)
        return I.new_arr(sh, dt, lambda k, i, j: f(k, T.add(T.mul(i, H), j)))
    if a.ndim == 2 and len(sh) == 1:
        return ravel(I, a)
    raise Unsupported("reshape")


@lib("numpy.ravel")
def np_ravel(I, args, kw):
    return ravel(I, toarr(I, args[0]))


def ravel(I, a):
    f, dt = I.arr_fn(a), I.arr_dtype(a)
    if a.ndim == 1:
        return a
    if a.ndim == 0:
        return I.new_arr((1,), dt, lambda i: f())
    if a.ndim == 2:
        W, H = a.shape
        if isinstance(H, int) and H == 1:
            note = I.st.heap[a.cid].note if a.axes is None else None
            return I.new_arr((W,), dt, lambda k: f(k, 0), note=note[1] if note and note[0] == "argwhere1" else None)
        if isinstance(W, int) and W == 1:
            return I.new_arr((H,), dt, lambda k: f(0, k))
        return I.new_arr((T.mul(W, H),), dt, lambda k: f(T.floordiv(k, H), T.mod(k, H)))
    raise Unsupported("ravel")


@lib("numpy.transpose")
def np_transpose(I, args, kw):
    return arrays.transpose(I, toarr(I, args[0]))


@lib("numpy.squeeze")
def np_squeeze(I, args, kw):
    a = toarr(I, args[0])
    return squeeze(I, a)


def squeeze(I, a):
    keep = []
    for j, d in enumerate(a.shape):
        if isinstance(d, int):
            if d != 1:
                keep.append(j)
        elif I.valid(ne(d, 1)):
            keep.append(j)
        elif I.valid(eq(d, 1)):
            pass
        else:
            if I.decide(eq(d, 1)):
                pass
            else:
                keep.append(j)
    f = I.arr_fn(a)

    def fn(*i):
        idx = [0] * a.ndim
        for p, j in enumerate(keep):
            idx[j] = i[p]
        return f(*idx)
    if not keep:
        return I.new_arr((), I.arr_dtype(a), lambda: fn())
    return I.new_arr([a.shape[j] for j in keep], I.arr_dtype(a), fn)


@lib("numpy.array_equal")
def np_array_equal(I, args, kw):
    a, b = toarr(I, args[0]), toarr(I, args[1])
    if a.ndim != b.ndim:
        return False
    sh = and_(*[eq(x, y) for x, y in zip(a.shape, b.shape)])
    fa, fb = I.arr_fn(a), I.arr_fn(b)
    e = I.new_arr(a.shape, "bool", lambda *i: eq(fa(*i), fb(*i)))
    return and_(sh, reduce(I, e, None, all_over, "bool"))


@lib("numpy.unique", "numpy.argsort", "numpy.sort")
def np_unsup(I, args, kw):
    raise Unsupported("sorting")


# ---------------- randomness: any outcome allowed by the documented distribution ----------------
@lib("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.seed")
def np_rng(I, args, kw):
    return ModV("numpy.random")


@lib("numpy.random.random", "numpy.random.rand", "numpy.random.random_sample", "numpy.random.uniform")
def np_random(I, args, kw):
    if args or kw:
        raise Unsupported("random with arguments")
    r = I.ctx.choice(I, "rnd", z3.RealSort())
    I.assume(and_(le(0, r), lt(r, 1)), "random")
    return r


@lib("numpy.random.randint", "numpy.random.integers")
def np_randint(I, args, kw):
    a = [T.num(I.resolve(x)) for x in args]
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    I.oblige("randint range is not empty", lt(lo, hi))
    r = I.ctx.choice(I, "rint", z3.IntSort())
    I.assume(and_(le(lo, r), lt(r, hi)), "randint")
    return r


@lib("numpy.random.choice", "random.choice")
def np_choice(I, args, kw):
    v = I.resolve(args[0])
    if any(k not in ("p", "a") for k in kw) or len(args) > 1:
        raise Unsupported("choice with size")
    if T.is_scalar(v):
        n, at = T.num(v), (lambda k: k)
    else:
        if isinstance(v, Arr):
            f = I.arr_fn(v)
            n, at = v.shape[0], f
            if v.ndim != 1:
                I.raise_("ValueError")
        else:
            items = I.concrete_items(v)
            n = I.length(v)
            vv = v
            if isinstance(v, ListRef):
                cell = I.st.heap[v.cid]
                at = lambda k: cell.at(k)
            else:
                at = lambda k: I.iter_at(vv, k)
    c = lt(0, n)
    if c is False:
        I.raise_("ValueError")
    if not I.valid(c):
        if I.in_try:
            if not I.decide(c):
                I.raise_("ValueError")
        else:
            I.oblige("choice from a non-empty collection", c)
    r = I.ctx.choice(I, "choice", z3.IntSort())
    p = I.resolve(kw.get("p"))
    if p is not None:
        pa = toarr(I, p)
        fp = clean_reader(I, I.arr_fn(pa), pa.shape)
        if not T.same(pa.shape[0], n) and not I.valid(eq(pa.shape[0], n)):
            I.oblige("one probability per choice", eq(pa.shape[0], n))
        k = fresh_bv(I)
        tot = sum_over(I, lambda k: fp(k), n, 0)()
        if not I.in_try or True:
            sv, I.in_try = I.in_try, 0
            I.oblige("choice probabilities sum to one", eq(tot, 1))
            I.oblige("choice probabilities are not negative", implies(and_(le(0, k), lt(k, n)), le(0, fp(k))))
            I.in_try = sv
        I.assume(and_(le(0, r), lt(r, n), lt(0, fp(r))), "choice")
    else:
        I.assume(and_(le(0, r), lt(r, n)), "choice")
    return at(r)


# ---------------- builtins ----------------
@lib("builtins.object_init", "builtins.object")
def b_object_init(I, args, kw):
    return None


@lib("builtins.len")
def b_len(I, args, kw):
    v = I.resolve(args[0])
    if T.is_scalar(v) or v is None:
        I.raise_("TypeError")
    return I.length(v)


@lib("numpy.shape")
def np_shape(I, args, kw):
    return tuple(toarr(I, args[0]).shape)


@lib("numpy.ndim")
def np_ndim(I, args, kw):
    return toarr(I, args[0]).ndim


@lib("builtins.range", "numba.prange")
def b_range(I, args, kw):
    a = [T.num(I.resolve(x)) for x in args]
    for x in a:
        if not T.is_int(x):
            I.raise_("TypeError")
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    return RangeV(a[0], a[1], a[2] if len(a) > 2 else 1)


@lib("builtins.enumerate")
def b_enumerate(I, args, kw):
    v = I.resolve(args[0])
    s = arg(args, kw, 1, "start", 0)
    items = I.concrete_items(v)
    if items is not None:
        return IterV(len(items), None, [(T.add(s, i), x) for i, x in enumerate(items)])
    n = I.length(v)
    at = snap_at(I, v)
    return IterV(n, lambda k: (T.add(s, k), at(k)))


def snap_at(I, v):
    if isinstance(v, ListRef):
        cell = I.st.heap[v.cid]
        return lambda k: cell.at(k)
    if isinstance(v, Arr):
        cidst = I.st.heap[v.cid]
        if v.ndim == 1:
            f = I.arr_fn(v)
            return lambda k: f(k)
        return lambda k: I.getitem(v, k, safe=True)
    return lambda k: I.iter_at(v, k)


@lib("builtins.zip")
def b_zip(I, args, kw):
    vs = [I.resolve(x) for x in args]
    its = [I.concrete_items(v) for v in vs]
    if all(i is not None for i in its):
        z = list(zip(*its))
        return IterV(len(z), None, z)
    ns = [I.length(v) for v in vs]
    n = ns[0]
    for m in ns[1:]:
        if not T.same(n, m):
            n = n if I.valid(le(n, m)) else (m if I.valid(le(m, n)) else T.min2(n, m))
    ats = [snap_at(I, v) for v in vs]
    return IterV(n, lambda k: tuple(a(k) for a in ats))


@lib("builtins.reversed")
def b_reversed(I, args, kw):
    v = I.resolve(args[0])
    items = I.concrete_items(v)
    if items is not None:
        return IterV(len(items), None, items[::-1])
    n = I.length(v)
    at = snap_at(I, v)
    return IterV(n, lambda k: at(T.sub(T.sub(n, 1), k)))


def seq_copy(kind):
    def h(I, args, kw):
        if not args:
            return () if kind == "tuple" else I.new_list([], kind=kind)
        v = I.resolve(args[0])
        items = I.concrete_items(v)
        if items is not None:
            return tuple(items) if kind == "tuple" else I.new_list(items, kind=kind)
        if isinstance(v, (ListRef, FamListRef, RangeV, IterV, Arr, DictRef)):
            n = I.length(v)
            c = I.const_int(n) if kind == "tuple" and not isinstance(v, FamListRef) else None
            at = snap_at(I, v)
            if isinstance(v, FamListRef):
                ef, ix = I.st.heap[v.ecid].fn, v.obj.idx
                at = lambda k: ef(ix, k)
            if c is not None:
                return tuple(at(i) for i in range(c))
            return I.new_list(None, n, at, kind)
        if isinstance(v, Opaque):
            return Opaque("list")
        raise Unsupported(f"{kind} of {type(v).__name__}")
    return h


LIB["builtins.list"] = seq_copy("list")
LIB["builtins.tuple"] = seq_copy("tuple")


@lib("builtins.set", "builtins.frozenset")
def b_set(I, args, kw):
    if not args:
        return I.new_list([], kind="set")
    raise Unsupported("set of a sequence")


@lib("builtins.dict")
def b_dict(I, args, kw):
    if not args:
        return DictRef(I.alloc(DictCell([(k, v) for k, v in kw.items()])))
    v = I.resolve(args[0])
    if isinstance(v, DictRef):
        d = I.st.heap[v.cid]
        return DictRef(I.alloc(DictCell(list(d.items) + list(kw.items()), d.fam)))
    items = I.concrete_items(v)
    if items is not None:
        out = []
        for x in items:
            k, y = I.unpack(x, 2, [False, False])
            I.dict_put(out, k, y)
        return DictRef(I.alloc(DictCell(out)))
    raise Unsupported("dict of a symbolic sequence")


@lib("builtins.int")
def b_int(I, args, kw):
    v = I.resolve(args[0]) if args else 0
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            I.raise_("ValueError")
    if isinstance(v, Arr):
        v = item(I, v)
    if isinstance(v, T.XF):
        v = T.xf(v.val, *[False if (c is False or I.valid(not_(c))) else c for c in (v.nan, v.ninf, v.pinf)])
    if v is None or isinstance(v, (ListRef, tuple, DictRef)):
        I.raise_("TypeError")
    return T.to_int(v)


@lib("builtins.float")
def b_float(I, args, kw):
    v = I.resolve(args[0])
    if isinstance(v, Arr):
        v = item(I, v)
    if isinstance(v, str):
        return T.norm(float(v))
    return T.to_float(v)


@lib("builtins.bool")
def b_bool(I, args, kw):
    return I.truth(args[0])


@lib("builtins.str", "builtins.repr")
def b_str(I, args, kw):
    return args[0] if args and isinstance(args[0], str) else Opaque("str")


def item(I, a):
    for d in a.shape:
        if not (isinstance(d, int) and d == 1):
            if not I.valid(eq(d, 1)):
                I.oblige("array has exactly one element", eq(d, 1))
    return I.arr_fn(a)(*[0] * a.ndim)


@lib("builtins.sum")
def b_sum(I, args, kw):
    v = I.resolve(args[0])
    st = arg(args, kw, 1, "start", 0)
    items = I.concrete_items(v)
    if items is not None:
        r = st
        for x in items:
            r = I.binop("Add", r, x)
        return r
    if isinstance(v, Arr) and v.ndim > 1:
        raise Unsupported("builtin sum over a 2-D array")
    n = I.length(v)
    at = snap_at(I, v)
    s = sum_over(I, lambda k: scal(I, at(k)), n, 0)()
    return T.add(st, s)


def scal(I, x):
    x = I.resolve(x)
    if isinstance(x, Arr) and x.ndim == 0:
        return I.arr_fn(x)()
    if not T.is_scalar(x):
        raise Unsupported("scalar expected")
    return T.norm(x)


def b_ext(kind):
    def h(I, args, kw):
        if "key" in kw:
            raise Unsupported("max with key")
        if len(args) > 1:
            vs = [scal(I, x) for x in args]
            r = vs[0]
            for x in vs[1:]:
                r = ite(T.lt(r, x) if kind == "max" else T.lt(x, r), x, r)
            return r
        v = I.resolve(args[0])
        items = I.concrete_items(v)
        if items is not None:
            if not items:
                if "default" in kw:
                    return kw["default"]
                I.raise_("ValueError")
            if len(items) == 1:
                return items[0]
            return h(I, items, {})
        n = I.length(v)
        if not I.valid(lt(0, n)):
            if "default" in kw:
                raise Unsupported("max default")
            I.oblige(f"{kind} of a non-empty sequence", lt(0, n))
        at = snap_at(I, v)
        return ext_over(I, kind, lambda k: scal(I, at(k)), n, 0)()
    return h


LIB["builtins.max"] = b_ext("max")
LIB["builtins.min"] = b_ext("min")


def b_quant(kind):
    def h(I, args, kw):
        v = I.resolve(args[0])
        items = I.concrete_items(v)
        if items is not None:
            ts = [I.truth(x) for x in items]
            return or_(*ts) if kind == "any" else and_(*ts)
        n = I.length(v)
        at = snap_at(I, v)
        over = any_over if kind == "any" else all_over
        return over(I, lambda k: T.truthy(scal(I, at(k))), n, 0)()
    return h


LIB["builtins.any"] = b_quant("any")
LIB["builtins.all"] = b_quant("all")


@lib("builtins.isinstance")
def b_isinstance(I, args, kw):
    v = I.resolve(args[0])
    cs = I.resolve(args[1])
    cs = list(cs) if isinstance(cs, tuple) else [cs]
    res = False
    for c in cs:
        r = isinst1(I, v, c)
        if r is True:
            return True
        res = or_(res, r)
    return res


def isinst1(I, v, c):
    if isinstance(c, ClassV):
        if isinstance(v, (ObjRef, FamRef)):
            return c in I.st.heap[v.cid].cls.mro()
        if isinstance(v, Opaque):
            raise Unsupported("isinstance of an opaque value")
        return False
    if isinstance(c, (LibV, DTypeV)):
        p = c.path if isinstance(c, LibV) else {"int": "numpy.int64", "float": "numpy.float64", "bool": "numpy.bool_"}[c.dt]
        if isinstance(v, Opaque):
            raise Unsupported("isinstance of an opaque value")
        if p == "numpy.ndarray":
            return isinstance(v, Arr)
        if p == "builtins.list":
            return isinstance(v, FamListRef) or isinstance(v, ListRef) and I.st.heap[v.cid].kind == "list"
        if p == "builtins.tuple":
            return isinstance(v, tuple) or isinstance(v, ListRef) and I.st.heap[v.cid].kind == "tuple"
        if p == "builtins.dict":
            return isinstance(v, DictRef)
        if p == "builtins.str":
            return isinstance(v, str)
        if p == "builtins.bool":
            return T.is_scalar(v) and T.is_bool(v)
        if p == "builtins.int":
            return T.is_scalar(v) and (T.is_int(v) or T.is_bool(v))
        if p == "builtins.float":
            return T.is_scalar(v) and T.kind(v) == "float"
        if p in ("numpy.integer", "numpy.int64"):
            # NumPy integer scalars are not distinguished from Python ints
            return T.is_scalar(v) and T.is_int(v)
        if p == "builtins.range":
            return isinstance(v, RangeV)
        if p == "numbers.Number":
            return T.is_scalar(v)
    raise Unsupported(f"isinstance against {c}")


@lib("builtins.type")
def b_type(I, args, kw):
    v = I.resolve(args[0])
    if isinstance(v, (ObjRef, FamRef)):
        return I.st.heap[v.cid].cls
    return Opaque("type")


@lib("builtins.getattr")
def b_getattr(I, args, kw):
    if not isinstance(args[1], str):
        raise Unsupported("getattr")
    return I.getattr(args[0], args[1])


@lib("builtins.hasattr")
def b_hasattr(I, args, kw):
    o = I.resolve(args[0])
    if isinstance(o, ObjRef) and isinstance(args[1], str):
        c = I.st.heap[o.cid]
        return args[1] in c.fields or c.cls.lookup(args[1]) is not None
    raise Unsupported("hasattr")


@lib("builtins.round")
def b_round(I, args, kw):
    v = T.norm(I.resolve(args[0]))
    if T.is_int(v):
        return v
    raise Unsupported("round")


@lib("builtins.map")
def b_map(I, args, kw):
    f, v = args[0], I.resolve(args[1])
    items = I.concrete_items(v)
    if items is None or len(args) > 2:
        raise Unsupported("map over a symbolic sequence")
    out = []
    for x in items:
        out.append(I.take([Outcome(o.st, "normal", o.val) if o.kind == "value" else o for o in I.call(f, [x], {})]))
    return IterV(len(out), None, out)


@lib("builtins.iter")
def b_iter(I, args, kw):
    return args[0]


@lib("builtins.next")
def b_next(I, args, kw):
    v = I.resolve(args[0])
    items = I.concrete_items(v)
    if items is not None:
        if items:
            return items[0]
        if len(args) > 1:
            return args[1]
    raise Unsupported("next")


@lib("builtins.sorted")
def b_sorted(I, args, kw):
    items = I.concrete_items(I.resolve(args[0]))
    if items is not None and not kw and all(isinstance(x, (int, str)) for x in items):
        return I.new_list(sorted(items))
    raise Unsupported("sorted")


@lib("copy.copy")
def c_copy(I, args, kw):
    v = I.resolve(args[0])
    if isinstance(v, Arr):
        return np_array(I, [v], {})
    if isinstance(v, ListRef):
        return ListRef(I.alloc(I.st.heap[v.cid]))
    if isinstance(v, DictRef):
        return DictRef(I.alloc(I.st.heap[v.cid]))
    if isinstance(v, ObjRef):
        return ObjRef(I.alloc(I.st.heap[v.cid]))
    if T.is_scalar(v) or isinstance(v, (tuple, str)) or v is None:
        return v
    if isinstance(v, FamListRef):
        return seq_copy("list")(I, [v], {})
    raise Unsupported("copy")


@lib("copy.deepcopy")
def c_deepcopy(I, args, kw):
    memo = {}

    def go(v):
        v = I.resolve(v)
        if T.is_scalar(v) or isinstance(v, (str, ModV, LibV, FuncV, ClassV, Opaque, DTypeV, RangeV)) or v is None:
            return v
        if isinstance(v, tuple):
            return tuple(go(x) for x in v)
        if isinstance(v, Arr):
            if v.axes is None and v.cid in memo:
                return Arr(memo[v.cid], v.shape)
            r = np_array(I, [v], {})
            if v.axes is None:
                memo[v.cid] = r.cid
            return r
        if isinstance(v, (ListRef, DictRef, ObjRef)):
            if v.cid in memo:
                return type(v)(memo[v.cid])
            c = I.st.heap[v.cid]
            cid = I.alloc(c)
            memo[v.cid] = cid
            if isinstance(v, ListRef):
                if c.items is None:
                    k = fresh_bv(I)
                    if not T.is_scalar(c.fn(k)):
                        raise Unsupported("deepcopy of a symbolic list of objects")
                else:
                    I.st.heap[cid] = ListCell([go(x) for x in c.items], kind=c.kind)
            elif isinstance(v, DictRef):
                if c.fam is not None:
                    raise Unsupported("deepcopy of a symbolic dict")
                I.st.heap[cid] = DictCell([(k if not isinstance(k, ObjRef) else go(k), go(x)) for k, x in c.items])
            else:
                I.st.heap[cid] = ObjCell(c.cls, {k: go(x) for k, x in c.fields.items()})
            return type(v)(cid)
        raise Unsupported(f"deepcopy of {type(v).__name__}")
    return go(args[0])


@lib("operator.itemgetter")
def op_itemgetter(I, args, kw):
    star = [x for x in args if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and x[0] == "*"]
    if star:
        seq = star[0][1]

        def g(I, a, k):
            raise Unsupported("itemgetter over a symbolic index list")
        return PyCall(g)
    keys = list(args)
    if not keys:
        I.raise_("TypeError")

    def g(I, a, k):
        if len(keys) == 1:
            return I.getitem(I.resolve(a[0]), keys[0])
        return tuple(I.getitem(I.resolve(a[0]), x) for x in keys)
    return PyCall(g)


@lib("fastprogress.progress_bar", "tqdm.tqdm")
def progress(I, args, kw):
    return args[0]


@lib("numpy.random.permutation", "numpy.random.shuffle")
def np_perm(I, args, kw):
    raise Unsupported("permutation")


# ---------------- array methods ----------------
def as_meth(path, n=1):
    def h(I, o, args, kw):
        return LIB[path](I, [o] + list(args), kw)
    return h


for _m in ("sum", "any", "all", "max", "min", "argmax", "argmin", "mean", "dot", "repeat", "cumsum", "prod"):
    METHODS[("arr", _m)] = as_meth("numpy." + _m)


@meth("arr", "copy", "__copy__")
def a_copy(I, a, args, kw):
    return np_array(I, [a], {})


@meth("arr", "astype")
def a_astype(I, a, args, kw):
    dt = dtype_of(I, args[0])
    f, d0 = I.arr_fn(a), I.arr_dtype(a)
    if dt == d0:
        return I.new_arr(a.shape, dt, f, note=I.st.heap[a.cid].note if a.axes is None else None)
    if dt == "int":
        f = clean_reader(I, f, a.shape)
    return I.new_arr(a.shape, dt, lambda *i: T.cast(f(*i), dt))


@meth("arr", "tolist")
def a_tolist(I, a, args, kw):
    if a.ndim == 0:
        return I.arr_fn(a)()
    f = I.arr_fn(a)
    if a.ndim == 1:
        if isinstance(a.shape[0], int):
            return I.new_list([f(i) for i in range(a.shape[0])])
        r = I.new_list(None, a.shape[0], f)
        return r
    if a.ndim == 2:
        n, m = a.shape
        if isinstance(m, int) and m <= 4:
            at = lambda k: Tup2List(tuple(f(k, j) for j in range(m)))
            if isinstance(n, int):
                return I.new_list([I.new_list([f(i, j) for j in range(m)]) for i in range(n)])
            return I.new_list(None, n, lambda k: tuple(f(k, j) for j in range(m)))
    raise Unsupported("tolist")


def Tup2List(t):
    return t


@meth("arr", "flatten", "ravel")
def a_flatten(I, a, args, kw):
    r = ravel(I, a)
    return np_array(I, [r], {}) if r is a else r


@meth("arr", "reshape")
def a_reshape(I, a, args, kw):
    if kw.get("order", "C") != "C":
        raise Unsupported("reshape order")
    sh = shape_of(I, args[0]) if len(args) == 1 else tuple(T.num(I.resolve(x)) for x in args)
    return reshape(I, a, sh)


@meth("arr", "squeeze")
def a_squeeze(I, a, args, kw):
    return squeeze(I, a)


@meth("arr", "transpose")
def a_transpose(I, a, args, kw):
    return arrays.transpose(I, a)


@meth("arr", "item")
def a_item(I, a, args, kw):
    return item(I, a)


@meth("arr", "nonzero")
def a_nonzero(I, a, args, kw):
    return np_where(I, [a], {})


@meth("arr", "fill")
def a_fill(I, a, args, kw):
    v = T.norm(I.resolve(args[0]))
    I.arr_write(a, lambda *i: True, lambda *i: v)
    return None


@meth("scalar", "astype")
def s_astype(I, v, args, kw):
    return T.cast(T.norm(v), dtype_of(I, args[0]))


@meth("scalar", "item", "copy", "tolist")
def s_item(I, v, args, kw):
    return v


@meth("scalar", "sum", "max", "min", "mean")
def s_sum(I, v, args, kw):
    return v


@meth("scalar", "any", "all")
def s_any(I, v, args, kw):
    return T.truthy(v)


# ---------------- list / dict / string methods ----------------
@meth("list", "append")
def l_append(I, o, args, kw):
    c = I.st.heap[o.cid]
    if c.kind == "tuple":
        I.raise_("AttributeError")
    v = args[0]
    if c.items is not None:
        I.st.heap[o.cid] = ListCell(list(c.items) + [v], kind=c.kind)
    else:
        n, fn = c.n, c.fn
        I.st.heap[o.cid] = ListCell(None, T.add(n, 1), lambda k: merge_val(lt(k, n), fn(k), v), c.kind)
    return None


@meth("famlist", "append")
def fl_append(I, o, args, kw):
    idx = o.obj.idx
    n = I.st.heap[o.lcid].fn(idx)
    v = scal(I, args[0])
    lc, ec = I.st.heap[o.lcid], I.st.heap[o.ecid]
    I.arr_write(Arr(o.ecid, ec.shape), lambda i, j: and_(eq(i, idx), eq(j, n)), lambda i, j: v)
    I.arr_write(Arr(o.lcid, lc.shape), lambda i: eq(i, idx), lambda i: T.add(n, 1))
    return None


@meth("list", "extend")
def l_extend(I, o, args, kw):
    I.inplace("Add", o, args[0])
    return None


@meth("list", "copy")
def l_copy(I, o, args, kw):
    if isinstance(o, tuple):
        I.raise_("AttributeError")
    return ListRef(I.alloc(I.st.heap[o.cid]))


@meth("list", "index")
def l_index(I, o, args, kw):
    x = I.resolve(args[0])
    items = I.concrete_items(o)
    if items is not None:
        cs = [I.truth(I.compare("Eq", i, x)) for i in items]
        for i, c in enumerate(cs):
            if c is True and all(d is False for d in cs[:i]):
                return i
        if not cs or all(c is False for c in cs):
            I.raise_("ValueError")
        if not I.valid(or_(*cs)):
            if not I.decide(or_(*cs)):
                I.raise_("ValueError")
        r = len(cs) - 1
        for i in range(len(cs) - 2, -1, -1):
            r = ite(cs[i], i, r)
        return r
    n = I.length(o)
    at = snap_at(I, o)
    w = arg_over(I, "argmax", lambda k: T.num(I.truth(I.compare("Eq", at(k), x))), n, 0)()
    c = and_(lt(0, n), I.truth(I.compare("Eq", at(w), x)))
    if not I.valid(c):
        if not I.decide(c):
            I.raise_("ValueError")
    return w


@meth("list", "pop")
def l_pop(I, o, args, kw):
    c = I.st.heap[o.cid]
    if c.items is not None and not args:
        if not c.items:
            I.raise_("IndexError")
        I.st.heap[o.cid] = ListCell(c.items[:-1], kind=c.kind)
        return c.items[-1]
    if c.items is not None and isinstance(args[0], int):
        its = list(c.items)
        v = its.pop(args[0])
        I.st.heap[o.cid] = ListCell(its, kind=c.kind)
        return v
    raise Unsupported("pop")


@meth("list", "insert")
def l_insert(I, o, args, kw):
    c = I.st.heap[o.cid]
    if c.items is not None and isinstance(args[0], int):
        its = list(c.items)
        its.insert(args[0], args[1])
        I.st.heap[o.cid] = ListCell(its, kind=c.kind)
        return None
    raise Unsupported("insert")


@meth("list", "add")
def l_add(I, o, args, kw):
    c = I.st.heap[o.cid]
    if c.kind != "set" or c.items is None:
        raise Unsupported("add")
    I.st.heap[o.cid] = ListCell(list(c.items) + [args[0]], kind="set")
    return None


@meth("dict", "keys")
def d_keys(I, o, args, kw):
    d = I.st.heap[o.cid]
    if d.fam is None:
        return IterV(len(d.items), None, [k for k, _ in d.items])
    if d.items:
        raise Unsupported("mixed dictionary")
    fam = d.fam
    return IterV(fam.n, lambda k: fam.key_at(k))


@meth("dict", "values")
def d_values(I, o, args, kw):
    d = I.st.heap[o.cid]
    if d.fam is None:
        return IterV(len(d.items), None, [v for _, v in d.items])
    if d.items:
        raise Unsupported("mixed dictionary")
    fam = d.fam
    return IterV(fam.n, lambda k: fam.val_at(k))


@meth("dict", "items")
def d_items(I, o, args, kw):
    d = I.st.heap[o.cid]
    if d.fam is None:
        return IterV(len(d.items), None, [(k, v) for k, v in d.items])
    if d.items:
        raise Unsupported("mixed dictionary")
    fam = d.fam
    return IterV(fam.n, lambda k: (fam.key_at(k), fam.val_at(k)))


@meth("dict", "get")
def d_get(I, o, args, kw):
    if I.decide(I.contains(o, args[0])):
        return I.getitem(o, args[0])
    return args[1] if len(args) > 1 else None


@meth("dict", "copy")
def d_copy(I, o, args, kw):
    return DictRef(I.alloc(I.st.heap[o.cid]))


@meth("dict", "update")
def d_update(I, o, args, kw):
    v = I.resolve(args[0])
    if not isinstance(v, DictRef) or I.st.heap[v.cid].fam is not None or I.st.heap[o.cid].fam is not None:
        raise Unsupported("update")
    items = list(I.st.heap[o.cid].items)
    for k, x in I.st.heap[v.cid].items:
        I.dict_put(items, k, x)
    I.st.heap[o.cid] = DictCell(items)
    return None


@meth("str", "format", "join", "lower", "upper", "strip")
def s_format(I, o, args, kw):
    return Opaque("str")


class DictFam:
    """symbolic family of dictionary entries: n entries, key_at(k), val_at(k); rank_of(key)->index;
    keys are pairwise distinct, has(key) decides membership"""

    def __init__(self, n, key_at, val_at, rank, has_):
        self.n, self.key_at, self.val_at, self.rank, self.has_ = n, key_at, val_at, rank, has_

    def has(self, I, key):
        return self.has_(key)

    def get(self, I, key):
        h = self.has_(key)
        if not I.valid(h):
            if not I.decide(h):
                I.raise_("KeyError")
        return self.val_at(self.rank(key))
