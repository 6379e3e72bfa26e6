"""Indexing, broadcasting and elementwise arithmetic on symbolic arrays and sequences."""
import z3
from fractions import Fraction
from . import terms as T
from .terms import Unsupported, and_, or_, not_, eq, ne, le, lt, ite, implies, is_z3
from .values import *
from .interp import FamListRef


def placeholders(I, n):
    return [z3.Int(I.ctx.name("ix")) for _ in range(n)]


def in_range(idx, shape):
    return and_(*[and_(le(0, i), lt(i, d)) for i, d in zip(idx, shape)])


def norm_index(I, i, n, safe=False, what="index in bounds"):
    i = T.num(I.resolve(i))
    if not T.is_int(i):
        I.raise_("IndexError")
    if safe:
        return i
    if isinstance(i, int) and i < 0:
        j = T.add(n, i)
        inb = le(0, j)
    elif isinstance(i, int):
        j = i
        inb = lt(i, n)
    else:
        if I.valid(le(0, i)):
            j = i
            inb = lt(i, n)
        elif I.valid(lt(i, 0)):
            j = T.add(n, i)
            inb = le(0, j)
        else:
            j = ite(lt(i, 0), T.add(i, n), i)
            inb = and_(le(T.neg(n), i), lt(i, n))
    if isinstance(inb, bool):
        if not inb:
            I.raise_("IndexError")
        return j
    if I.in_try:
        if not I.valid(inb):
            if not I.decide(inb):
                I.raise_("IndexError")
        return j
    if not I.valid(inb, light=True):
        I.oblige(what, inb)
    return j


def slice_bounds(I, s, n):
    """-> (start, length, step) with python clamping"""
    step = 1 if s.s is None else T.num(s.s)
    if not isinstance(step, int) or step == 0:
        raise Unsupported("symbolic slice step")

    def clamp(x, lo, hi):
        x = T.num(x)
        if not T.is_int(x):
            I.raise_("TypeError")
        if isinstance(x, int) and x == 0 and lo == 0:
            return 0
        if isinstance(x, int) and x < 0:
            x = T.add(n, x)
            if isinstance(x, int):
                return max(lo, x)
            return x if I.valid(le(lo, x)) else T.max2(x, lo)
        if isinstance(x, int) and isinstance(hi, int):
            return min(x, hi)
        if not isinstance(x, int) and not I.valid(le(0, x)):
            x = ite(lt(x, 0), T.max2(T.add(x, n), lo), x)
        return x if I.valid(le(x, hi)) else T.min2(x, hi)
    if step > 0:
        a = 0 if s.a is None else clamp(s.a, 0, n)
        b = n if s.b is None else clamp(s.b, 0, n)
        d = T.sub(b, a)
        if isinstance(d, int):
            ln = max(0, (d + step - 1) // step)
        else:
            if not I.valid(le(0, d)):
                d = T.max2(d, 0)
            ln = d if step == 1 else T.floordiv(T.add(d, step - 1), step)
        return a, ln, step
    if s.a is None and s.b is None:
        a = T.sub(n, 1)
        ln = n if step == -1 else T.floordiv(T.add(n, -step - 1), -step)
        return a, ln, step
    raise Unsupported("negative slice step with bounds")


class AdvIdx:
    """1-D advanced index along one axis: n entries, at(k); mask(i) and rank(i) when it came from a mask/where"""

    def __init__(self, n, at, mask=None, rank=None):
        self.n, self.at, self.mask, self.rank = n, at, mask, rank


def as_adv(I, x, dim, for_set=False):
    if isinstance(x, Arr):
        if I.arr_dtype(x) == "bool":
            if x.ndim != 1:
                raise Unsupported("multi-dimensional mask on one axis")
            f = I.arr_fn(x)
            if not T.same(x.shape[0], dim):
                I.oblige("mask length equals axis length", eq(x.shape[0], dim))
            k = z3.Int(I.ctx.name("mk"))
            body = f(k)
            if isinstance(body, bool):
                if body:
                    return AdvIdx(dim, lambda k: k, lambda i: True, lambda i: i)
                return AdvIdx(0, lambda k: k, lambda i: False, lambda i: i)
            if for_set:
                app = None
            app = I.ctx.reduction("where1", [], [k], body, [x.shape[0]])
            cnt, at, rank = app()
            return AdvIdx(cnt, at, lambda i: T.truthy(f(i)), rank)
        if x.ndim != 1:
            raise Unsupported("multi-dimensional fancy index")
        if I.arr_dtype(x) != "int":
            I.raise_("IndexError")
        f = I.arr_fn(x)
        n = x.shape[0]
        note = I.st.heap[x.cid].note if x.axes is None else None
        check_adv(I, n, f, dim)
        if note and note[0] == "where1":
            return AdvIdx(n, f, note[1], note[2])
        return AdvIdx(n, wrapneg(I, n, f, dim), None, None)
    if isinstance(x, (ListRef, tuple, RangeV, FamListRef)):
        items = I.concrete_items(x)
        if items is not None:
            items = [I.resolve(i) for i in items]
            if all(T.is_bool(i) for i in items) and items:
                m = list(items)
                a = I.lib1("numpy.array", x)
                return as_adv(I, a, dim)
            its = [norm_index(I, i, dim) for i in items]
            if not its:
                return AdvIdx(0, lambda k: 0, lambda i: False, lambda i: 0)

            def at(k):
                r = its[-1]
                for j in range(len(its) - 2, -1, -1):
                    r = ite(eq(k, j), its[j], r)
                return r

            def rank(i):
                r = 0
                for j in range(len(its)):
                    r = ite(eq(i, its[j]), j, r)
                return r
            return AdvIdx(len(its), at, lambda i: or_(*[eq(i, t) for t in its]), rank)
        n = I.length(x)
        f = lambda k: I.iter_at(x, k)
        snap = I.st
        if isinstance(x, ListRef):
            cell = I.st.heap[x.cid]
            f = lambda k: T.num(cell.at(k))
        check_adv(I, n, f, dim)
        return AdvIdx(n, wrapneg(I, n, f, dim), None, None)
    raise Unsupported(f"index of type {type(x).__name__}")


def check_adv(I, n, f, dim):
    k = z3.Int(I.ctx.name("fk"))
    v = f(k)
    if not T.is_int(T.num(v)):
        raise Unsupported("fancy index with non-integers")
    g = and_(le(0, k), lt(k, n))
    goal = implies(g, and_(le(T.neg(dim), v), lt(v, dim)))
    I.oblige("fancy index in bounds", goal)


def wrapneg(I, n, f, dim):
    k = z3.Int(I.ctx.name("fk"))
    if I.valid(implies(and_(le(0, k), lt(k, n)), le(0, f(k)))):
        return f
    return lambda k: ite(lt(f(k), 0), T.add(f(k), dim), f(k))


def expand(I, idx, ndim):
    comps = list(idx) if isinstance(idx, tuple) else [idx]
    n_used = sum(1 for c in comps if c is not None and c is not Ellipsis)
    out = []
    seen = False
    for c in comps:
        if c is Ellipsis:
            if seen:
                I.raise_("IndexError")
            seen = True
            out += [SliceV(None, None, None)] * (ndim - n_used)
        else:
            out.append(c)
    if not seen:
        out += [SliceV(None, None, None)] * (ndim - n_used)
    if sum(1 for c in out if c is not None) > ndim:
        I.raise_("IndexError")
    return out


def is_adv(I, c):
    return isinstance(c, (ListRef, FamListRef, RangeV)) or isinstance(c, tuple) or (isinstance(c, Arr) and c.ndim > 0)


def getitem(I, obj, idx, safe=False):
    if isinstance(obj, Arr):
        return arr_get(I, obj, idx, safe)
    if isinstance(obj, (ListRef, tuple, RangeV, FamListRef, IterV)):
        return seq_get(I, obj, idx)
    if isinstance(obj, DictRef):
        return dict_get(I, obj, idx)
    if isinstance(obj, str):
        if isinstance(idx, int):
            return obj[idx]
        raise Unsupported("string index")
    if isinstance(obj, Opaque):
        return Opaque(obj.name + "[]")
    if isinstance(obj, (LibV, ClassV)):     # typing subscripts
        return Opaque("type")
    if T.is_scalar(obj) or obj is None:
        I.raise_("TypeError")
    raise Unsupported(f"subscript of {type(obj).__name__}")


def dict_get(I, obj, key):
    d = I.st.heap[obj.cid]
    conds = [I.key_eq(k, key) for k, _ in d.items]
    for c, (k, v) in zip(conds, d.items):
        if c is True:
            return v
    alts = [(c, v) for c, (k, v) in zip(conds, d.items) if c is not False]
    alts = [(c, v) for c, v in alts if I.ctx.sat_light(I.st.pc + [c])]
    if d.fam is not None:
        if alts:
            raise Unsupported("symbolic key in a mixed dictionary")
        return d.fam.get(I, key)
    if not alts:
        I.raise_("KeyError")
    if len(alts) == 1 and I.valid(alts[0][0]):
        return alts[0][1]
    if not I.valid(or_(*[c for c, _ in alts])):
        if not I.decide(or_(*[c for c, _ in alts])):
            I.raise_("KeyError")
    v = alts[-1][1]
    for c, x in reversed(alts[:-1]):
        v = I.merge_v(c, x, v, I.st)
    return v


def seq_get(I, obj, idx):
    if isinstance(idx, tuple):
        I.raise_("TypeError")
    items = I.concrete_items(obj)
    if isinstance(idx, SliceV):
        if items is not None and all(x is None or isinstance(x, int) for x in (idx.a, idx.b, idx.s)):
            r = items[slice(idx.a, idx.b, idx.s)]
            return tuple(r) if isinstance(obj, tuple) else I.new_list(r)
        n = I.length(obj)
        a, ln, step = slice_bounds(I, idx, n)
        if isinstance(obj, RangeV):
            raise Unsupported("slice of a range")
        if isinstance(obj, ListRef):
            cell = I.st.heap[obj.cid]
            at, kind = cell.at, cell.kind
        else:
            at, kind = (lambda k: I.iter_at(obj, k)), "list"
        return I.new_list(None, ln, lambda k: at(T.add(a, T.mul(step, k))), kind)
    n = I.length(obj)
    j = norm_index(I, idx, n, what="list index in bounds")
    if items is not None:
        if isinstance(j, int):
            return items[j]
        if not items:
            I.raise_("IndexError")
        v = items[-1]
        for i in range(len(items) - 2, -1, -1):
            v = I.merge_v(eq(j, i), items[i], v, I.st)
        return v
    return I.iter_at(obj, j)


def arr_view(I, a, comps, safe=False):
    """basic indexing -> view"""
    axes0 = a.axes if a.axes is not None else [("a", j, 0, 1) for j in range(a.ndim)]
    # map from old view axis -> ('f', t) or ('a', newj, start, step)
    m = {}
    shape = []
    ax = 0
    for c in comps:
        if c is None:
            shape.append(1)
            continue
        n = a.shape[ax]
        if isinstance(c, SliceV):
            st, ln, step = slice_bounds(I, c, n)
            m[ax] = ("a", len(shape), st, step)
            shape.append(ln)
        else:
            if isinstance(c, Arr) and c.ndim == 0:
                c = I.arr_fn(c)()
            m[ax] = ("f", norm_index(I, c, n, safe))
        ax += 1
    axes = []
    for x in axes0:
        if x[0] == "f":
            axes.append(x)
        else:
            _, j, st, step = x
            y = m[j]
            if y[0] == "f":
                axes.append(("f", T.add(st, T.mul(step, y[1]))))
            else:
                axes.append(("a", y[1], T.add(st, T.mul(step, y[2])), step * y[3]))
    return Arr(a.cid, shape, axes)


def arr_get(I, a, idx, safe=False):
    # boolean mask of the array's own rank
    if isinstance(idx, Arr) and idx.ndim > 1 and I.arr_dtype(idx) == "bool":
        raise Unsupported("selection by a multi-dimensional mask")
    if isinstance(idx, tuple) and len(idx) == 1 and isinstance(idx[0], tuple):
        idx = idx[0]
    if isinstance(idx, tuple) and len(idx) == 1 and idx[0] == ():
        return a
    comps = expand(I, idx, a.ndim)
    if not any(is_adv(I, c) for c in comps):
        v = arr_view(I, a, comps, safe)
        if v.ndim == 0:
            return I.arr_fn(v)()
        return v
    return adv_get(I, a, comps)


def adv_get(I, a, comps):
    if any(c is None for c in comps):
        raise Unsupported("newaxis with fancy index")
    f = I.arr_fn(a)
    adv = {}
    pos = []
    for ax, c in enumerate(comps):
        if is_adv(I, c):
            adv[ax] = as_adv(I, c, a.shape[ax])
            pos.append(ax)
        elif not isinstance(c, SliceV):
            pos.append(ax)
    ns = [adv[x].n for x in adv]
    n = ns[0]
    for m in ns[1:]:
        if not T.same(n, m):
            I.oblige("fancy index shapes agree", eq(n, m))
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    first = pos[0] if contiguous else 0
    shape, src = [], {}
    fixed = {}
    rest = []
    for ax, c in enumerate(comps):
        if ax in adv:
            continue
        if isinstance(c, SliceV):
            rest.append((ax, slice_bounds(I, c, a.shape[ax])))
        else:
            fixed[ax] = norm_index(I, c, a.shape[ax])
    before = [r for r in rest if contiguous and r[0] < first]
    after = [r for r in rest if r not in before]
    shape = [r[1][1] for r in before] + [n] + [r[1][1] for r in after]
    ka = len(before)

    def fn(*ix):
        base = [None] * a.ndim
        for j, r in enumerate(before):
            base[r[0]] = T.add(r[1][0], T.mul(r[1][2], ix[j]))
        for j, r in enumerate(after):
            base[r[0]] = T.add(r[1][0], T.mul(r[1][2], ix[ka + 1 + j]))
        for ax in fixed:
            base[ax] = fixed[ax]
        for ax in adv:
            base[ax] = adv[ax].at(ix[ka])
        return f(*base)
    return I.new_arr(shape, I.arr_dtype(a), fn)


def broadcast_reader(I, v, shape, what="shapes agree"):
    """reader of v broadcast to shape"""
    v = I.resolve(v)
    if isinstance(v, (ListRef, tuple, RangeV, FamListRef)):
        v = I.lib1("numpy.array", v)
    if T.is_scalar(v):
        v = T.norm(v)
        return lambda *i: v
    if not isinstance(v, Arr):
        raise Unsupported(f"array value of type {type(v).__name__}")
    f = I.arr_fn(v)
    if v.ndim == 0:
        return lambda *i: f()
    vs = list(v.shape)
    while len(vs) > len(shape):
        if isinstance(vs[0], int) and vs[0] == 1:
            vs = vs[1:]
            f = (lambda g: lambda *i: g(0, *i))(f)
        else:
            I.raise_("ValueError")
    off = len(shape) - len(vs)
    use = []
    for j, d in enumerate(vs):
        t = shape[off + j]
        if isinstance(d, int) and d == 1 and not (isinstance(t, int) and t == 1):
            use.append(False)
        else:
            use.append(True)
            if not T.same(d, t):
                if isinstance(d, int) and isinstance(t, int):
                    I.raise_("ValueError")
                g = eq(d, t)
                if not I.valid(g):
                    if I.valid(eq(d, 1)):
                        use[-1] = False
                    elif I.valid(not_(g)):
                        I.raise_("ValueError")
                    else:
                        I.oblige(what, g)
    nv = len(vs)
    return lambda *i: f(*[i[off + j] if use[j] else 0 for j in range(nv)])


def setitem(I, obj, idx, v):
    if isinstance(obj, ListRef):
        c = I.st.heap[obj.cid]
        if c.kind == "tuple":
            I.raise_("TypeError")
        if isinstance(idx, SliceV):
            raise Unsupported("slice assignment on a list")
        j = norm_index(I, idx, c.length(), what="list index in bounds")
        if c.items is not None and isinstance(j, int):
            items = list(c.items)
            items[j] = v
            I.st.heap[obj.cid] = ListCell(items, kind=c.kind)
        elif c.items is not None:
            items = [I.merge_v(eq(j, i), v, x, I.st) for i, x in enumerate(c.items)]
            I.st.heap[obj.cid] = ListCell(items, kind=c.kind)
        else:
            I.st.heap[obj.cid] = ListCell(None, c.n, lambda k: merge_val(eq(k, j), v, c.fn(k)), c.kind)
        return
    if isinstance(obj, DictRef):
        d = I.st.heap[obj.cid]
        items = list(d.items)
        if d.fam is not None:
            raise Unsupported("store into a symbolic dictionary")
        I.dict_put(items, idx, v)
        I.st.heap[obj.cid] = DictCell(items, d.fam)
        return
    if isinstance(obj, Opaque):
        return
    if isinstance(obj, tuple):
        I.raise_("TypeError")
    if not isinstance(obj, Arr):
        raise Unsupported(f"item assignment on {type(obj).__name__}")
    a = obj
    if isinstance(idx, Arr) and I.arr_dtype(idx) == "bool" and idx.ndim == a.ndim and a.ndim > 1:
        m = broadcast_reader(I, idx, a.shape, "mask shape equals array shape")
        val = I.resolve(v)
        if not T.is_scalar(val):
            raise Unsupported("masked assignment of an array")
        I.arr_write(a, lambda *i: T.truthy(m(*i)), lambda *i: val)
        return
    comps = expand(I, idx, a.ndim)
    if not any(is_adv(I, c) for c in comps):
        view = arr_view(I, a, comps)
        r = broadcast_reader(I, v, view.shape, "assigned value fits the target")
        I.arr_write(view, lambda *i: True, r)
        return
    if any(c is None for c in comps):
        raise Unsupported("newaxis in fancy assignment")
    adv, pos, fixed, rest = {}, [], {}, []
    for ax, c in enumerate(comps):
        if is_adv(I, c):
            adv[ax] = as_adv(I, c, a.shape[ax], for_set=True)
            pos.append(ax)
        elif isinstance(c, SliceV):
            rest.append((ax, slice_bounds(I, c, a.shape[ax])))
        else:
            fixed[ax] = norm_index(I, c, a.shape[ax])
            pos.append(ax)
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    first = pos[0] if contiguous else 0
    before = [r for r in rest if contiguous and r[0] < first]
    after = [r for r in rest if r not in before]
    n = list(adv.values())[0].n
    shape = [r[1][1] for r in before] + [n] + [r[1][1] for r in after]
    val = broadcast_reader(I, v, shape, "assigned value fits the target")
    axs = list(adv)
    if len(axs) == 1:
        A = adv[axs[0]]
        if A.mask is not None:
            hit, rank = (lambda i: A.mask(i)), A.rank
        else:
            hit, rank = any_hit(I, A) if T.is_scalar(I.resolve(v)) else last_hit(I, A)
        getk = lambda ix: (hit(ix[axs[0]]), rank(ix[axs[0]]))
    else:
        # several index arrays in lock step: (k) with all at_j(k) == ix_j; last one wins
        phs = placeholders(I, len(axs))
        k = z3.Int(I.ctx.name("lk"))
        body = ite(and_(*[eq(adv[x].at(k), p) for x, p in zip(axs, phs)]), k, -1)
        app = I.ctx.reduction("argmax", phs, [k], body, [n])

        def getk(ix):
            kk = app(*[ix[x] for x in axs])
            return and_(lt(0, n), *[eq(adv[x].at(kk), ix[x]) for x in axs]), kk
    ka = len(before)

    def split(ix):
        cs = [eq(ix[ax], t) for ax, t in fixed.items()]
        vi = [None] * len(shape)
        for j, r in enumerate(before):
            s, ln, step = r[1]
            if step != 1:
                raise Unsupported("step in fancy assignment")
            vi[j] = T.sub(ix[r[0]], s)
            cs += [le(0, vi[j]), lt(vi[j], ln)]
        for j, r in enumerate(after):
            s, ln, step = r[1]
            if step != 1:
                raise Unsupported("step in fancy assignment")
            vi[ka + 1 + j] = T.sub(ix[r[0]], s)
            cs += [le(0, vi[ka + 1 + j]), lt(vi[ka + 1 + j], ln)]
        h, kk = getk(ix)
        vi[ka] = kk
        return and_(*cs, h), vi
    I.arr_write(a, lambda *ix: split(ix)[0], lambda *ix: val(*split(ix)[1]))


def any_hit(I, A):
    """the written value is the same for all: only whether an index occurs matters"""
    ph = z3.Int(I.ctx.name("ix"))
    k = z3.Int(I.ctx.name("lk"))
    app = I.ctx.reduction("any", [ph], [k], T.zb(eq(A.at(k), ph)), [A.n])
    return (lambda i: app(i)), (lambda i: 0)


def last_hit(I, A):
    ph = z3.Int(I.ctx.name("ix"))
    k = z3.Int(I.ctx.name("lk"))
    body = ite(eq(A.at(k), ph), k, -1)
    app = I.ctx.reduction("argmax", [ph], [k], body, [A.n])
    return (lambda i: and_(lt(0, A.n), eq(A.at(app(i)), i))), (lambda i: app(i))


# ---------- elementwise ----------
def infer_dtype(I, fn, nd):
    v = fn(*placeholders(I, nd))
    return T.kind(v)


def map1(I, v, f, dtype):
    v = I.resolve(v)
    if isinstance(v, (ListRef, tuple)):
        v = I.lib1("numpy.array", v)
    if isinstance(v, Arr):
        g = I.arr_fn(v)
        fn = lambda *i: f(g(*i))
        return I.new_arr(v.shape, dtype or infer_dtype(I, fn, v.ndim), fn)
    if T.is_scalar(v):
        return f(T.norm(v))
    raise Unsupported(f"arithmetic on {type(v).__name__}")


def bshape(I, s1, s2):
    n = max(len(s1), len(s2))
    a = [1] * (n - len(s1)) + list(s1)
    b = [1] * (n - len(s2)) + list(s2)
    out = []
    for x, y in zip(a, b):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        elif T.same(x, y):
            out.append(x)
        elif isinstance(x, int):
            out.append(x)
        else:
            out.append(x)
    return out


def map2(I, a, b, f, dtype):
    a, b = I.resolve(a), I.resolve(b)
    if T.is_scalar(a) and T.is_scalar(b):
        return f(T.norm(a), T.norm(b))
    if isinstance(a, (ListRef, tuple, RangeV)):
        a = I.lib1("numpy.array", a)
    if isinstance(b, (ListRef, tuple, RangeV)):
        b = I.lib1("numpy.array", b)
    for x in (a, b):
        if not (isinstance(x, Arr) or T.is_scalar(x)):
            if x is None:
                I.raise_("TypeError")
            raise Unsupported(f"array arithmetic with {type(x).__name__}")
    sa = a.shape if isinstance(a, Arr) else ()
    sb = b.shape if isinstance(b, Arr) else ()
    shape = bshape(I, sa, sb)
    ra = broadcast_reader(I, a, shape, "operand shapes agree")
    rb = broadcast_reader(I, b, shape, "operand shapes agree")
    fn = lambda *i: f(ra(*i), rb(*i))
    if not shape:
        return fn()
    return I.new_arr(shape, dtype or infer_dtype(I, fn, len(shape)), fn)


def xdiv(a, b):
    """IEEE-style division of extended reals where the divisor may be zero (sign of zero not modelled)"""
    if isinstance(a, T.XF) or isinstance(b, T.XF):
        return T.truediv(a, b)
    if T.is_conc(b):
        return T.truediv(a, b)
    z = eq(b, 0)
    return T.xf(T.truediv_fin(a, b), and_(z, eq(a, 0)), and_(z, lt(a, 0)), and_(z, lt(0, a)))


def divide(I, a, b):
    if T.is_scalar(a) and T.is_scalar(b):
        a, b = T.num(a), T.num(b)
        if isinstance(a, T.XF) or isinstance(b, T.XF):
            return T.truediv(a, b)
        if T.is_conc(b):
            if b == 0:
                if T.is_int(b) and T.is_int(a):
                    I.raise_("ZeroDivisionError")
            return T.truediv(a, b)
        if I.valid(ne(b, 0)):
            return T.truediv(a, b)
        if T.is_int(a) and T.is_int(b) and not I.in_try:
            I.oblige("division by zero", ne(b, 0))
            return T.truediv(a, b)
        return xdiv(a, b)
    # arrays
    sa = a.shape if isinstance(a, Arr) else ()
    sb = b.shape if isinstance(b, Arr) else ()
    shape = bshape(I, sa, sb)
    rb = broadcast_reader(I, b, shape, "operand shapes agree")
    ph = placeholders(I, len(shape))
    bb = rb(*ph)
    plain = False
    if not isinstance(bb, T.XF):
        if T.is_conc(T.num(bb)):
            plain = bb != 0
        else:
            plain = I.valid(implies(in_range(ph, shape), ne(bb, 0)))
    return map2(I, a, b, T.truediv if plain else xdiv, "float")


def power(a, b):
    a, b = T.num(a), T.num(b)
    if isinstance(a, T.XF) or isinstance(b, T.XF):
        raise Unsupported("power of special floats")
    if T.is_conc(b) and T.is_int(b) and 0 <= b <= 4:
        r = 1
        for _ in range(b):
            r = T.mul(r, a)
        return r
    if T.is_conc(a) and T.is_conc(b):
        if T.is_int(b) and a != 0:
            return Fraction(a) ** int(b)
    if T.is_conc(b) and b == 0:
        return 1
    return T.POW(T.zr(a), T.zr(b))


def binop(I, op, a, b):
    a, b = I.resolve(a), I.resolve(b)
    if isinstance(a, Arr) or isinstance(b, Arr) or (T.is_scalar(a) and T.is_scalar(b)):
        if isinstance(a, (Opaque,)) or isinstance(b, Opaque):
            return Opaque("value")
        if a is None or b is None:
            I.raise_("TypeError")
        if op == "Div":
            if isinstance(a, (ListRef, tuple)):
                a = I.lib1("numpy.array", a)
            if isinstance(b, (ListRef, tuple)):
                b = I.lib1("numpy.array", b)
            return divide(I, a, b)
        if op == "MatMult":
            return I.lib1("numpy.dot", a, b)
        if op in ("FloorDiv", "Mod") and T.is_scalar(b) and T.is_scalar(a) and not T.is_conc(b):
            if not I.valid(lt(0, b)):
                I.oblige("divisor is positive", lt(0, b))
        if op in ("FloorDiv", "Mod") and T.is_conc(b) and b == 0 and T.is_scalar(a):
            I.raise_("ZeroDivisionError")
        fs = {"Add": T.add, "Sub": T.sub, "Mult": T.mul, "FloorDiv": T.floordiv, "Mod": T.mod, "Pow": power,
              "BitAnd": bitand, "BitOr": bitor, "BitXor": bitxor}
        if op not in fs:
            raise Unsupported(f"operator {op}")
        f = fs[op]
        if op in ("Add", "Mult") and isinstance(a, Arr) and isinstance(b, Arr) and I.arr_dtype(a) == "bool" == I.arr_dtype(b):
            f = bitor if op == "Add" else bitand
        return map2(I, a, b, f, None)
    if isinstance(a, str) and isinstance(b, str) and op == "Add":
        return a + b
    if isinstance(a, (str, Opaque)) or isinstance(b, Opaque):
        return Opaque("str")
    if op == "Add" and isinstance(a, (ListRef, FamListRef)) and isinstance(b, (ListRef, FamListRef)):
        return concat(I, a, b, "list")
    if op == "Add" and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if op == "Add" and (isinstance(a, tuple) or isinstance(b, tuple)):
        return concat(I, a, b, "tuple")
    if op == "Mult" and isinstance(b, (ListRef, tuple)):
        a, b = b, a
    if op == "Mult" and isinstance(a, (ListRef, tuple)) and T.is_scalar(b):
        items = I.concrete_items(a)
        if items is not None and isinstance(b, int):
            return tuple(items * b) if isinstance(a, tuple) else I.new_list(items * b)
        if items is not None and len(items) == 1:
            x = items[0]
            n = T.max2(b, 0) if not I.valid(le(0, b)) else b
            return I.new_list(None, n, lambda k: x, "list")
        raise Unsupported("repetition of a symbolic list")
    if a is None or b is None:
        I.raise_("TypeError")
    raise Unsupported(f"operator {op} on {type(a).__name__} and {type(b).__name__}")


def concat(I, a, b, kind):
    ia, ib = I.concrete_items(a), I.concrete_items(b)
    if ia is not None and ib is not None:
        return I.new_list(ia + ib, kind=kind)
    na, nb = I.length(a), I.length(b)
    ca = I.st.heap[a.cid] if isinstance(a, ListRef) else None
    cb = I.st.heap[b.cid] if isinstance(b, ListRef) else None
    ata = ca.at if ca else (lambda k: I.iter_at(a, k))
    atb = cb.at if cb else (lambda k: I.iter_at(b, k))
    if ia is not None and not ia:
        return I.new_list(None, nb, atb, kind)
    if ib is not None and not ib:
        return I.new_list(None, na, ata, kind)
    return I.new_list(None, T.add(na, nb), lambda k: merge_val(lt(k, na), ata(k), atb(T.sub(k, na))), kind)


def bitand(a, b):
    if T.is_bool(a) and T.is_bool(b):
        return and_(a, b)
    if isinstance(a, int) and isinstance(b, int):
        return int(a) & int(b)
    for x, y in ((a, b), (b, a)):
        if isinstance(y, int) and y == 1 and T.is_int(x):
            return T.mod(x, 2)
    raise Unsupported("bitwise and")


def bitor(a, b):
    if T.is_bool(a) and T.is_bool(b):
        return or_(a, b)
    if isinstance(a, int) and isinstance(b, int):
        return int(a) | int(b)
    raise Unsupported("bitwise or")


def bitxor(a, b):
    if T.is_bool(a) and T.is_bool(b):
        return not_(eq(a, b))
    raise Unsupported("bitwise xor")


def transpose(I, a, perm=None):
    nd = a.ndim
    perm = list(range(nd))[::-1] if perm is None else perm      # new axis j = old axis perm[j]
    inv = [perm.index(i) for i in range(nd)]
    axes0 = a.axes if a.axes is not None else [("a", j, 0, 1) for j in range(nd)]
    axes = [x if x[0] == "f" else ("a", inv[x[1]], x[2], x[3]) for x in axes0]
    return Arr(a.cid, [a.shape[p] for p in perm], axes)
