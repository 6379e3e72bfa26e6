"""Runtime values of the symbolic interpreter and the heap."""
import z3
from . import terms as T
from .terms import Unsupported, and_, or_, not_, eq, le, lt, ite, is_z3


class _Undef:
    def __repr__(self):
        return "<undef>"


UNDEF = _Undef()


class Poison:
    """value of a loop-carried variable whose content is not yet known (discovery pass)"""

    def __init__(self, key):
        self.key = key
        self.dead = False


class PoisonRead(Exception):
    def __init__(self, key):
        self.key = key


class CondAssign(Exception):
    """a variable of an enclosing loop is assigned conditionally"""

    def __init__(self, key):
        self.key = key


class Case:
    """guarded union: exactly one guard holds"""

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return f"Case({self.alts})"


class Opaque:
    """a value the verifier does not look into (messages, plots, progress bars ...)"""

    def __init__(self, name="opaque"):
        self.name = name

    def __repr__(self):
        return f"<opaque {self.name}>"


class ModV:
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<module {self.path}>"


class LibV:
    """a library function or class, identified by dotted path (numpy.zeros, builtins.len ...)"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<lib {self.path}>"


class ClassV:
    def __init__(self, name, module, node, bases):
        self.name, self.module, self.node, self.bases = name, module, node, bases
        self.members = {}

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.members:
                return c.members[name]
        return None

    def is_exc(self):
        for b in self.bases:
            if isinstance(b, LibV) and b.path.startswith("exc."):
                return True
            if isinstance(b, ClassV) and b.is_exc():
                return True
        return False

    def __repr__(self):
        return f"<class {self.name}>"


class FuncV:
    def __init__(self, node, module, cls=None, closure=None):
        self.node, self.module, self.cls, self.closure = node, module, cls, closure
        self.static = False

    @property
    def qual(self):
        m = self.module.name if self.module else "?"
        return f"{m}.{self.cls.name}.{self.node.name}" if self.cls else f"{m}.{getattr(self.node, 'name', '<lambda>')}"

    def __repr__(self):
        return f"<func {self.qual}>"


class PropV:
    def __init__(self, fget=None, fset=None):
        self.fget, self.fset = fget, fset


class BoundV:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class MethV:
    """method of a built-in value (array.sum, list.append ...)"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class ExcV:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return f"<exc {self.cls} at {getattr(self, 'where', '?')}>"


class RangeV:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def length(self):
        s = self.step
        if not isinstance(s, int) or s == 0:
            raise Unsupported("range with symbolic step")
        if s == 1:
            d = T.sub(self.stop, self.start)
        elif s > 0:
            d = T.floordiv(T.add(T.sub(self.stop, self.start), s - 1), s)
        elif s == -1:
            d = T.sub(self.start, self.stop)
        else:
            d = T.floordiv(T.add(T.sub(self.start, self.stop), -s - 1), -s)
        return T.max2(d, 0) if not isinstance(d, int) else max(d, 0)

    def at(self, k):
        return T.add(self.start, T.mul(self.step, k))


class IterV:
    """lazy iterable: n elements, at(k)"""

    def __init__(self, n, at, items=None):
        self.n, self.at, self.items = n, at, items


class SliceV:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class DTypeV:
    def __init__(self, dt):
        self.dt = dt


class Arr:
    """NumPy array handle: a (basic) view on a heap cell.
    axes: per base axis ('f', term) fixed or ('a', j, start, step) view axis j; None = identity"""
    __slots__ = ("cid", "shape", "axes")

    def __init__(self, cid, shape, axes=None):
        self.cid, self.shape, self.axes = cid, tuple(shape), axes

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return f"Arr#{self.cid}{self.shape}"


class ListRef:
    __slots__ = ("cid",)

    def __init__(self, cid):
        self.cid = cid


class DictRef:
    __slots__ = ("cid",)

    def __init__(self, cid):
        self.cid = cid


class ObjRef:
    __slots__ = ("cid",)

    def __init__(self, cid):
        self.cid = cid


class FamRef:
    """element idx of a family of objects"""
    __slots__ = ("cid", "idx")

    def __init__(self, cid, idx):
        self.cid, self.idx = cid, idx


# ---- heap cells (immutable) ----
class ArrCell:
    __slots__ = ("shape", "dtype", "fn", "frozen", "note")

    def __init__(self, shape, dtype, fn, frozen=False, note=None):
        self.shape, self.dtype, self.fn, self.frozen, self.note = tuple(shape), dtype, fn, frozen, note


class ListCell:
    """concrete: items list.  symbolic: n, fn(k)->value"""
    __slots__ = ("items", "n", "fn", "kind")

    def __init__(self, items=None, n=None, fn=None, kind="list"):
        self.items, self.n, self.fn, self.kind = items, n, fn, kind

    def length(self):
        return len(self.items) if self.items is not None else self.n

    def at(self, k):
        if self.items is not None:
            if isinstance(k, int):
                return self.items[k]
            if not self.items:
                raise Unsupported("index into an empty list")
            v = self.items[-1]
            for i in range(len(self.items) - 2, -1, -1):
                v = merge_val(eq(k, i), self.items[i], v)
            return v
        return self.fn(k)


class DictCell:
    """items: list of (key, value) with concretely distinguishable keys;
    fam: optional symbolic family (n, key_at, val_at) of further entries"""
    __slots__ = ("items", "fam")

    def __init__(self, items, fam=None):
        self.items, self.fam = items, fam


class ObjCell:
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class FamCell:
    """fields: name -> ('s', arr cid) | ('a', arr cid) | ('l', len cid, elem cid) | ('v', value) | ('o', fn idx->value)"""
    __slots__ = ("cls", "n", "fields")

    def __init__(self, cls, n, fields):
        self.cls, self.n, self.fields = cls, n, fields


class NoMerge(Exception):
    pass


def merge_val(c, a, b):
    """value if c else b (both immutable or identical handles); raises NoMerge"""
    if a is b:
        return a
    if isinstance(c, z3.ExprRef):
        if z3.is_true(c):
            c = True
        elif z3.is_false(c):
            c = False
    if isinstance(c, bool):
        return a if c else b
    if T.is_scalar(a) and T.is_scalar(b):
        return ite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if same_val(a, b):
        return a
    if isinstance(a, FamRef) and isinstance(b, FamRef) and a.cid == b.cid:
        return FamRef(a.cid, ite(c, a.idx, b.idx))
    return Case(_alts(c, a) + _alts(not_(c), b))


def _alts(c, v):
    if isinstance(v, Case):
        return [(and_(c, g), x) for g, x in v.alts]
    return [(c, v)]


def same_val(a, b):
    if a is b:
        return True
    if type(a) != type(b):
        return False
    if T.is_scalar(a):
        return T.same(a, b)
    if isinstance(a, str):
        return a == b
    if isinstance(a, Arr):
        if a.cid != b.cid or len(a.shape) != len(b.shape):
            return False
        if not all(T.same(x, y) for x, y in zip(a.shape, b.shape)):
            return False
        if a.axes is None or b.axes is None:
            return a.axes is None and b.axes is None
        for x, y in zip(a.axes, b.axes):
            if x[0] != y[0] or len(x) != len(y):
                return False
            if not all(T.same(p, q) for p, q in zip(x[1:], y[1:])):
                return False
        return True
    if isinstance(a, (ListRef, DictRef, ObjRef)):
        return a.cid == b.cid
    if isinstance(a, FamRef):
        return a.cid == b.cid and T.same(a.idx, b.idx)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, (ModV, LibV)):
        return a.path == b.path
    if isinstance(a, RangeV):
        return all(T.same(x, y) for x, y in ((a.start, b.start), (a.stop, b.stop), (a.step, b.step)))
    if isinstance(a, Opaque):
        return True
    if isinstance(a, DTypeV):
        return a.dt == b.dt
    if isinstance(a, BoundV):
        return a.func is b.func and same_val(a.self_, b.self_)
    if isinstance(a, ExcV):
        return a.cls == b.cls
    return False


class State:
    __slots__ = ("heap", "loc", "pc", "ch")

    def __init__(self, heap=None, loc=None, pc=None, ch=0):
        self.ch = ch        # arbitrary choices made so far in the current loop body
        self.heap = heap if heap is not None else {}
        self.loc = loc if loc is not None else {}
        self.pc = pc if pc is not None else []

    def clone(self):
        return State(dict(self.heap), dict(self.loc), list(self.pc), self.ch)


class Outcome:
    __slots__ = ("st", "kind", "val")

    def __init__(self, st, kind, val=None):
        self.st, self.kind, self.val = st, kind, val

    def __repr__(self):
        return f"Outcome({self.kind},{self.val})"
