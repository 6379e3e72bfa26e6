"""Loops: concrete unrolling, and summaries of loops over symbolic ranges.

A loop over a symbolic range is summarised without a bound.  The loop body is executed for an arbitrary iteration K
with every location it modifies (locals, object fields, arrays, lists) replaced by a symbol standing for its value
at the start of iteration K.  From the resulting update the exact value at the start of every iteration is derived
(row-parallel writes, accumulation, guarded writes, last write, appends) or, where no closed form is recognised, kept
as a recurrence  x(0)=x0, x(t+1)=X(t).  A last run of the body with those values generates the safety and contract
obligations of the body for an arbitrary K.  The derived value is an inductive loop invariant by construction: it is
either the recurrence itself or checked against it with the solver."""
import ast
import z3
from . import terms as T
from .terms import Unsupported, and_, or_, not_, eq, le, lt, ite, implies, is_z3, zi
from .values import *
from .ctx import solve_for

MAX_UNROLL = 80


class LoopBind(ast.stmt):
    _fields = ()


def _unrollable(I, it):
    items = I.concrete_items(it)
    if items is not None and len(items) <= MAX_UNROLL:
        return items
    return None


def for_stmt(I, s):
    it = I.resolve(I.ev(s.iter))
    items = _unrollable(I, it)
    if items is not None:
        return unroll(I, s, items)
    n = T.simp(I.length(it))
    if not isinstance(n, int):
        c = None
        if z3.is_app_of(n, z3.Z3_OP_ITE) and n.arg(1).decl().get_id() in I.ctx.red_by_decl and I.ctx.red_by_decl[n.arg(1).decl().get_id()].kind.startswith("where") \
                and n.arg(0).eq(z3.IntVal(0) <= n.arg(1)):
            n = T.unz(n.arg(1))       # the size of an index set
        if I.valid(eq(n, 0), light=True):
            c = 0
        elif I.valid(eq(n, 1), light=True):
            c = 1
        if c is not None:
            n = c
        elif z3.is_app_of(n, z3.Z3_OP_ITE) and I.valid(T.unz(n.arg(0)), light=True):
            n = T.unz(n.arg(1))
    if isinstance(n, int) and n <= MAX_UNROLL:
        return unroll(I, s, [("at", it, k) for k in range(n)], lazy=True)
    L = Loop(I, s, n, lambda I_, k: I_.assign(s.target, I_.iter_at(it, k)))
    if isinstance(it, ListRef):
        L.frozen_list = it.cid
    return L.run()


def while_stmt(I, s):
    # try a few concrete iterations first
    t = s.test
    brk = ast.copy_location(ast.If(ast.copy_location(ast.UnaryOp(ast.Not(), t), s), [ast.copy_location(ast.Break(), s)], []), s)
    loop = ast.copy_location(ast.For(ast.Name("$w", ast.Store()), ast.Constant(0), [brk] + s.body, [], lineno=s.lineno), s)
    if s.orelse:
        raise Unsupported("while-else")
    r = while_concrete(I, s)
    if r is not None:
        return r
    L = Loop(I, loop, None, lambda I_, k: None)
    return L.run()


def while_concrete(I, s):
    """unroll while the test is decided concretely"""
    I.ctx.mute += 1
    try:
        c = I.truth(I.ev(s.test))
    finally:
        I.ctx.mute -= 1
    c = T.simp(c) if is_z3(c) else c
    if not isinstance(c, bool):
        return None
    if c is False:
        return I.ok()
    cur, done = [I.st], []
    base = len(I.st.pc)
    for _ in range(MAX_UNROLL):
        nxt = []
        for st in cur:
            sv = (I.st, I.script, I.pos)
            I.st = st
            try:
                c = I.truth(I.ev(s.test))
            finally:
                I.st, I.script, I.pos = sv
            c = T.simp(c) if is_z3(c) else c
            if c is False:
                done.append(Outcome(st, "normal"))
                continue
            if not isinstance(c, bool):
                return None
            for o in I.block(st, s.body):
                if o.kind in ("normal", "continue"):
                    nxt.append(Outcome(o.st, "normal"))
                elif o.kind == "break":
                    done.append(Outcome(o.st, "normal"))
                else:
                    done.append(o)
        nxt = I.join(nxt, base)
        cur = [o.st for o in nxt]
        if not cur:
            return I.join(done, base)
    return None


def unroll(I, s, items, lazy=False):
    base = len(I.st.pc)
    cur, done = [I.st], []
    for x in items:
        nxt = []
        for st in cur:
            b = LoopBind()
            b.lineno = s.lineno
            if lazy:
                b.fn = lambda I_, x=x: I_.assign(s.target, I_.iter_at(x[1], x[2]))
            else:
                b.fn = lambda I_, x=x: I_.assign(s.target, x)
            for o in I.block(st, [b] + s.body):
                if o.kind in ("normal", "continue"):
                    nxt.append(Outcome(o.st, "normal"))
                elif o.kind == "break":
                    done.append(Outcome(o.st, "normal"))
                else:
                    done.append(o)
        if len(nxt) > 1:
            nxt = I.join(nxt, base)
        if len(nxt) > 48:
            raise Unsupported("too many paths in a loop")
        cur = [o.st for o in nxt]
        if not cur:
            break
    if s.orelse:
        for st in cur:
            done += I.block(st, s.orelse)
    else:
        done += [Outcome(st, "normal") for st in cur]
    return I.join(done, base) if len(done) > 1 else done


# ------------------------------------------------------------------ helpers on terms
def subst(v, subs):
    """substitute in a scalar (python number / z3 / XF)"""
    if not subs:
        return v
    num = any(z3.is_int_value(b) for _, b in subs)

    def f(t):
        r = z3.substitute(t, *subs)
        return z3.simplify(r) if num else r
    return T.map_terms(v, f)


def subst_value(I, v, subs, changed):
    """substitute in an arbitrary value; arrays/lists allocated since `changed` (cid bound) are copied"""
    if T.is_scalar(v):
        return subst(v, subs)
    if isinstance(v, tuple):
        return tuple(subst_value(I, x, subs, changed) for x in v)
    if isinstance(v, FamRef):
        return FamRef(v.cid, subst(v.idx, subs))
    if isinstance(v, RangeV):
        return RangeV(*[subst(x, subs) for x in (v.start, v.stop, v.step)])
    if isinstance(v, Case):
        return Case([(subst(g, subs), subst_value(I, x, subs, changed)) for g, x in v.alts])
    if isinstance(v, Arr):
        if v.cid <= changed and v.axes is None:
            return v
        shape = tuple(subst(d, subs) for d in v.shape)
        if v.cid <= changed:
            axes = []
            for ax in v.axes:
                axes.append((ax[0], subst(ax[1], subs)) if ax[0] == "f" else (ax[0], ax[1], subst(ax[2], subs), ax[3]))
            return Arr(v.cid, shape, tuple(axes))
        f = I.arr_fn(v)
        dt = I.arr_dtype(v)
        cid = I.alloc(ArrCell(shape, dt, template(f, len(shape), I, subs), frozen=True))
        return Arr(cid, shape)
    if isinstance(v, ListRef):
        if v.cid <= changed:
            return v
        c = I.st.heap[v.cid]
        if c.items is not None:
            return I.new_list([subst_value(I, x, subs, changed) for x in c.items], kind=c.kind)
        fn = c.fn
        k0 = z3.Int(I.ctx.name("lk"))
        tv = fn(k0)
        return I.new_list(None, subst(c.n, subs), lambda k: subst_value(I, tv, subs + [(k0, zi(k))], changed), c.kind)
    if isinstance(v, DictRef):
        if v.cid <= changed:
            return v
        c = I.st.heap[v.cid]
        if c.fam is not None:
            raise Unsupported("dictionary created in a summarised loop")
        return DictRef(I.alloc(DictCell([(subst_value(I, k, subs, changed), subst_value(I, x, subs, changed)) for k, x in c.items])))
    if isinstance(v, ObjRef):
        if v.cid <= changed:
            return v
        c = I.st.heap[v.cid]
        return ObjRef(I.alloc(ObjCell(c.cls, {k: subst_value(I, x, subs, changed) for k, x in c.fields.items()})))
    return v


def prune(v):
    """drop branches whose condition is plainly false"""
    memo = {}

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i][1]
        r = t
        if z3.is_app(t) and t.num_args():
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                c = z3.simplify(t.arg(0))
                if z3.is_true(c):
                    r = go(t.arg(1))
                elif z3.is_false(c):
                    r = go(t.arg(2))
                else:
                    r = z3.If(t.arg(0), go(t.arg(1)), go(t.arg(2)))
            else:
                ch = [go(c) for c in t.children()]
                if any(not a.eq(b) for a, b in zip(ch, t.children())):
                    r = t.decl()(*ch)
        memo[i] = (t, r)
        return r
    return T.map_terms(v, go)


def template(f, nidx, I, subs=()):
    """memoised reader: evaluate f once at placeholders and substitute afterwards"""
    ph = [z3.Int(I.ctx.name("tp")) for _ in range(nidx)]
    box = []

    def g(*idx):
        if not box:
            box.append(f(*ph))
        return subst(box[0], list(subs) + [(p, zi(i)) for p, i in zip(ph, idx)])
    return g


def apps_of(t, decl):
    out, seen = {}, set()
    stack = list(T.terms_of(t))
    did = decl.get_id()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().get_id() == did:
                out[x.get_id()] = x
            stack.extend(x.children())
    return list(out.values())


def delta(t, base):
    """d with t == base + d for every value of base (syntactic), else None"""
    if T.same(t, base):
        return 0
    if not is_z3(t) or not is_z3(base) or isinstance(t, T.XF):
        return None
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = delta(T.unz(t.arg(1)), base), delta(T.unz(t.arg(2)), base)
        if a is None:
            # in the branch p == e the element read at e is the one at p
            c = t.arg(0)
            for e in (c.children() if z3.is_and(c) else [c]):
                if z3.is_eq(e) and e.arg(0).sort() == z3.IntSort():
                    for x, y in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                        if z3.is_const(x) and not z3.is_int_value(x):
                            a = delta(T.unz(t.arg(1)), z3.substitute(base, (x, y)))
                            if a is not None:
                                break
                if a is not None:
                    break
        if a is None or b is None:
            return None
        return ite(t.arg(0), a, b)
    if z3.is_app_of(t, z3.Z3_OP_ADD):
        ch = t.children()
        for i, c in enumerate(ch):
            d = delta(T.unz(c), base) if (c.eq(base) or T.occurs(c, base)) else None
            if d is not None:
                r = d
                for j, o in enumerate(ch):
                    if j != i:
                        r = T.add(r, T.unz(o))
                return r
        return None
    if z3.is_app_of(t, z3.Z3_OP_SUB):
        d = delta(T.unz(t.arg(0)), base)
        if d is None:
            return None
        for o in t.children()[1:]:
            d = T.sub(d, T.unz(o))
        return d
    return None


def indicator(d):
    """d == ite(c, a, 0) for a constant a -> (c, a) (a None: always 0), else None"""
    if T.is_conc(d):
        return (False, None) if d == 0 else (True, d)
    if is_z3(d) and z3.is_app_of(d, z3.Z3_OP_ITE):
        x, y = indicator(T.unz(d.arg(1))), indicator(T.unz(d.arg(2)))
        if x is None or y is None:
            return None
        if x[1] is not None and y[1] is not None and x[1] != y[1]:
            return None
        c = d.arg(0)
        return T.simp(or_(and_(c, x[0]), and_(not_(c), y[0]))), (x[1] if x[1] is not None else y[1])
    return None


def guarded(t, base):
    """t == ite(c, v, base) -> (c, v) with as much of c as is syntactically visible, else None"""
    if T.same(t, base):
        return False, None
    if isinstance(t, T.XF) or isinstance(base, T.XF):
        return None
    if is_z3(t) and z3.is_app_of(t, z3.Z3_OP_ITE):
        c = t.arg(0)
        a, b = guarded(T.unz(t.arg(1)), base), guarded(T.unz(t.arg(2)), base)
        if a is None or b is None:
            return None
        (ca, va), (cb, vb) = a, b
        cc = or_(and_(c, ca), and_(not_(c), cb))
        if va is None:
            return cc, vb
        if vb is None:
            return cc, va
        return cc, ite(c, va, vb)
    return True, t


class Key:
    """a location modified by the loop body"""

    def __init__(self, kind, ident, entry):
        self.kind, self.ident, self.entry = kind, ident, entry
        self.dtype = None        # scalars / arrays
        self.shape = None
        self.sym = None          # decl reader: scalar -> sym(k); array -> sym(k,*idx)
        self.decls = []
        self.solved = None       # callable (k[, *idx]) -> value at the start of iteration k
        self.row = None          # (axis, off, R)
        self.desc = ""

    def __repr__(self):
        return f"<key {self.kind} {self.ident}>"


class Loop:
    def __init__(self, I, s, n, bind):
        self.I, self.s, self.n, self.bind = I, s, n, bind
        self.ctx = I.ctx
        self.keys = {}
        self.frozen_list = None
        self.prev = None        # what the completed iteration before this one established (induction hypothesis)
        self.poison_names = set()
        self.stable = {}        # names read before they are assigned, always assigned the object they already refer to
        self.poison = {}        # this loop's own marks: "not assigned yet in this iteration"
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    self.poison_names.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    self.poison_names.add(x.name)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    self.poison_names.add(x.name)
        if s.target is not None:
            for x in ast.walk(s.target):
                if isinstance(x, ast.Name):
                    self.poison_names.add(x.id)

    # ---------- set-up of one execution of the body ----------
    def guard(self):
        g = [le(0, self.K)]
        if self.n is not None:
            g.append(lt(self.K, self.n))
        if self.prev is not None:
            g.append(self.prev)
        return g

    def start_state(self):
        st = self.st0.clone()
        st.pc += self.guard()
        for nm in self.poison_names:
            st.loc[nm] = self.stable[nm] if nm in self.stable else self.poison.setdefault(nm, Poison(nm))
        for key in self.keys.values():
            self.install(st, key, self.K)
        return st

    def install(self, st, key, k, final=False):
        """put the value of key at the start of iteration k into st"""
        val = key.solved or key.sym
        if key.kind == "l":
            st.loc[key.ident] = self.as_val(st, key, val, k)
        elif key.kind == "f":
            cid, nm = key.ident
            c = st.heap[cid]
            f = dict(c.fields)
            f[nm] = self.as_val(st, key, val, k)
            st.heap[cid] = ObjCell(c.cls, f)
        elif key.kind == "a":
            c = st.heap[key.ident]
            fn = (lambda *idx: val(k, *idx))
            st.heap[key.ident] = ArrCell(c.shape, key.dtype, template(fn, len(c.shape), self.I), c.frozen)
        elif key.kind == "L":
            st.heap[key.ident] = val(k)

    def as_val(self, st, key, val, k):
        if key.shape is None:
            return val(k)
        sv = self.I.st
        self.I.st = st
        try:
            cid = self.I.alloc(ArrCell(key.shape, key.dtype, template(lambda *idx: val(k, *idx), len(key.shape), self.I), frozen=False))
        finally:
            self.I.st = sv
        return Arr(cid, key.shape)

    def mk_sym(self, key):
        """fresh symbols for the value of key at the start of iteration K"""
        ls = list(self.ctx.loopstack)       # includes K (last)
        outer = ls[:-1]
        nidx = 0
        if key.kind == "a":
            nidx = len(self.st0.heap[key.ident].shape)
        elif key.shape is not None:
            nidx = len(key.shape)
        base = f"{key.kind}{key.ident if isinstance(key.ident, (str, int)) else key.ident[1]}"

        def mk(sfx, sort):
            f = z3.Function(self.ctx.name(base + sfx), *([z3.IntSort()] * (len(ls) + nidx)), sort)
            self.ctx.keep.append(f)
            key.decls.append(f)
            return f
        key.decls = []
        if key.dtype == "xfloat":
            v, n_, m, p = mk("", z3.RealSort()), mk("_nan", z3.BoolSort()), mk("_ni", z3.BoolSort()), mk("_pi", z3.BoolSort())

            def sym(k, *idx):
                a = outer + [zi(k)] + [zi(i) for i in idx]
                nan = n_(*a)
                return T.XF(v(*a), nan, and_(not_(nan), m(*a)), and_(not_(nan), not_(m(*a)), p(*a)))
        else:
            from .ctx import sort_of
            v = mk("", sort_of(key.dtype))

            def sym(k, *idx):
                return v(*(outer + [zi(k)] + [zi(i) for i in idx]))
        key.sym = sym

    def dtype_of(self, v):
        if isinstance(v, T.XF):
            return "xfloat"
        return T.kind(v)

    def body_run(self):
        b = LoopBind()
        b.lineno = getattr(self.s, "lineno", 0)
        b.fn = lambda I_: self.bind(I_, self.K)
        return self.I.block(self.start_state(), [b] + self.s.body)

    # ---------- discovery of the modified locations ----------
    def norm_outs(self, outs):
        """(normal outcome or None, exits)"""
        base = len(self.st0.pc) + len(self.guard())
        norm = [Outcome(o.st, "normal") for o in outs if o.kind in ("normal", "continue")]
        exits = [o for o in outs if o.kind in ("break", "return", "raise")]
        if len(norm) > 1:
            norm = self.I.join(norm, base)
        if len(norm) > 1:
            raise Unsupported("loop body paths cannot be joined")
        ex = []
        for o in exits:
            if o.kind == "raise":
                if self.ctx.valid(o.st.pc, False, rounds=3, timeout=3000):
                    continue
            ex.append(o)
        return (norm[0] if norm else None), ex

    def add_key(self, kind, ident, entry):
        k = (kind, ident)
        if k in self.keys:
            return False
        key = Key(kind, ident, entry)
        if kind in ("l", "f"):
            if T.is_scalar(entry):
                key.dtype = self.dtype_of(entry)
            elif isinstance(entry, Arr):
                sv = self.I.st
                self.I.st = self.st0
                try:
                    key.shape = entry.shape
                    key.dtype = self.I.arr_dtype(entry)
                    f = self.I.arr_fn(entry)
                    key.entry_fn = f
                finally:
                    self.I.st = sv
            else:
                raise Unsupported(f"loop-carried {ident} of type {type(entry).__name__}")
            self.mk_sym(key)
        elif kind == "a":
            c = self.st0.heap[ident]
            key.dtype = c.dtype
            key.shape_cell = c.shape
            self.mk_sym(key)
            # arrays of dtype float whose entry content carries special values
            probe = c.fn(*[z3.Int(self.ctx.name("pb")) for _ in c.shape])
            if isinstance(probe, T.XF) and key.dtype == "float":
                key.xf = True
                key.dtype = "xfloat"
                self.mk_sym(key)
                key.dtype = "float"
        elif kind == "L":
            self.mk_list(key)
        self.keys[k] = key
        return True

    def mk_list(self, key):
        c = self.st0.heap[key.ident]
        nsym = z3.Function(self.ctx.name("len"), *([z3.IntSort()] * len(self.ctx.loopstack)), z3.IntSort())
        outer = list(self.ctx.loopstack[:-1])
        key.decls = [nsym]
        key.nsym = lambda k: nsym(*outer, zi(k))
        key.old = Opaque("list content")

        class Old:
            pass
        key.marker = {}

        def content(k):
            def fn(j):
                return ListElem(key, k, j)
            return ListCell(None, key.nsym(k), fn, c.kind)
        key.sym = content

    def discover(self):
        for _ in range(14):
            try:
                outs = self.body_run()
            except CondAssign as p:
                nm = p.key
                entry = self.st0.loc.get(nm, UNDEF)
                if isinstance(entry, Poison) and not entry.dead:
                    raise
                if (T.is_scalar(entry) or isinstance(entry, Arr)) and self.add_key("l", nm, entry):
                    continue
                if self.poison[nm].dead:
                    raise Unsupported(f"conditionally assigned {nm}")
                self.poison[nm].dead = True       # cannot be read before it is assigned: stays unreadable
                continue
            except PoisonRead as p:
                nm = p.key
                entry = self.st0.loc.get(nm, UNDEF)
                if isinstance(entry, Poison):
                    raise PoisonRead(entry.key)       # carried by an enclosing loop
                if entry is UNDEF:
                    if nm not in self.st0.loc:
                        # defined on a previous iteration only
                        raise Unsupported(f"loop variable {nm} read before assignment")
                    raise Unsupported(f"loop variable {nm} undefined at entry")
                if isinstance(entry, Case):
                    raise Unsupported(f"loop-carried union {nm}")
                if isinstance(entry, (ListRef, DictRef, ObjRef)) and nm not in self.stable:
                    self.stable[nm] = entry
                    continue
                if not self.add_key("l", nm, entry):
                    raise Unsupported(f"poisoned {nm}")
                continue
            norm, ex = self.norm_outs(outs)
            if norm is None:
                return norm, ex
            for nm, v in self.stable.items():
                if not same_val(norm.st.loc.get(nm, UNDEF), v):
                    raise Unsupported(f"loop-carried {nm} of type {type(v).__name__}")
            new = False
            st_in = self.start_state()
            for cid, c0 in self.st0.heap.items():
                c1 = norm.st.heap.get(cid)
                if c1 is c0 or c1 is None:
                    continue
                if isinstance(c0, ArrCell):
                    if ("a", cid) not in self.keys:
                        new |= self.add_key("a", cid, c0)
                elif isinstance(c0, ObjCell):
                    for f in set(c0.fields) | set(c1.fields):
                        a, b = c0.fields.get(f, UNDEF), c1.fields.get(f, UNDEF)
                        if a is b or same_val(a, b):
                            continue
                        if ("f", (cid, f)) in self.keys:
                            continue
                        if a is UNDEF:
                            raise Unsupported(f"attribute {f} first set in a loop")
                        new |= self.add_key("f", (cid, f), a)
                elif isinstance(c0, ListCell):
                    if ("L", cid) not in self.keys:
                        if cid == self.frozen_list:
                            raise Unsupported("list modified while iterated")
                        new |= self.add_key("L", cid, c0)
                elif isinstance(c0, (DictCell, FamCell)):
                    raise Unsupported("dictionary modified in a summarised loop")
            for nm in self.poison_names:
                v = norm.st.loc.get(nm, UNDEF)
                if isinstance(v, Poison):
                    continue
                if isinstance(v, Case) and any(isinstance(x, Poison) for _, x in v.alts) and ("l", nm) not in self.keys:
                    entry = self.st0.loc.get(nm, UNDEF)
                    if isinstance(entry, Poison) and not entry.dead and not entry.key.startswith("after:"):
                        raise CondAssign(entry.key)       # conditionally assigned here, carried by an enclosing loop
                    if entry is not UNDEF and (T.is_scalar(entry) or isinstance(entry, Arr)):
                        new |= self.add_key("l", nm, entry)
            # kind promotion
            for key in self.keys.values():
                if key.kind in ("l", "f"):
                    v = self.cur_val(norm.st, key)
                    if key.shape is None and T.is_scalar(v):
                        d = self.dtype_of(v)
                        order = {"bool": 0, "int": 1, "float": 2, "xfloat": 3}
                        if order[d] > order[key.dtype]:
                            key.dtype = d
                            self.mk_sym(key)
                            new = True
                elif key.kind == "a" and key.dtype == "float" and not getattr(key, "xf", False):
                    c = norm.st.heap[key.ident]
                    pr = c.fn(*[z3.Int(self.ctx.name("pb")) for _ in c.shape])
                    if isinstance(pr, T.XF):
                        key.xf = True
                        key.dtype = "xfloat"
                        self.mk_sym(key)
                        key.dtype = "float"
                        new = True
            if not new:
                return norm, ex
        raise Unsupported("loop state does not stabilise")

    def cur_val(self, st, key):
        if key.kind == "l":
            return st.loc.get(key.ident, UNDEF)
        cid, nm = key.ident
        return st.heap[cid].fields.get(nm, UNDEF)

    # ---------- update terms ----------
    def update(self, st, key, ph):
        """value of key at the end of iteration K as a term (arrays: at placeholders ph)"""
        sv = self.I.st
        self.I.st = st
        try:
            if key.kind == "a":
                return st.heap[key.ident].fn(*ph)
            v = self.cur_val(st, key)
            if key.shape is not None:
                if not isinstance(v, Arr) or len(v.shape) != len(key.shape) or \
                        not all(T.same(a, b) or self.I.valid(eq(a, b)) for a, b in zip(v.shape, key.shape)):
                    raise Unsupported("loop-carried array changes shape")
                return self.I.arr_fn(v)(*ph)
            if isinstance(v, Case):
                w = None
                for g, x in reversed(v.alts):
                    if not T.is_scalar(x):
                        raise Unsupported("loop-carried union")
                    w = x if w is None else ite(g, x, w)
                v = w
            if not T.is_scalar(v):
                raise Unsupported(f"loop-carried {key.ident} becomes {type(v).__name__}")
            return v
        finally:
            self.I.st = sv

    def entry_at(self, key, idx):
        if key.kind == "a":
            return self.st0.heap[key.ident].fn(*idx)
        if key.shape is not None:
            return key.entry_fn(*idx)
        return key.entry

    def unsolved_decls(self):
        return {d.get_id() for k in self.keys.values() if not k.solved for d in k.decls}

    def mentions(self, t, dids):
        return bool(self.ctx.deep_decls(t) & dids)

    def shape_of(self, key):
        if key.kind == "a":
            return self.st0.heap[key.ident].shape
        return key.shape or ()

    def in_bounds(self, key, ph):
        return [g for p, d in zip(ph, self.shape_of(key)) for g in (le(0, p), lt(p, d))]

    def is_base(self, t, key):
        return t

    def kterm(self, tmpl, ph):
        K = self.K

        def f(k, *idx):
            return subst(tmpl, [(K, zi(k))] + [(p, zi(i)) for p, i in zip(ph, idx)])
        return f

    def solve(self):
        for rnd in range(8):
            if all(k.solved for k in self.keys.values()):
                return
            outs = self.body_run()
            self.round_un = self.unsolved_decls()      # symbols that occur in this run of the body
            norm, ex = self.norm_outs(outs)
            if norm is None:
                return
            progress = False
            for key in self.keys.values():
                if key.solved:
                    continue
                if key.kind == "L":
                    r = self.solve_list(norm.st, key)
                else:
                    r = self.solve_key(norm.st, key)
                if r is not None:
                    key.solved = r
                    progress = True
                    break_now = False
            if not progress:
                # row-parallel treatment of the remaining arrays, one at a time
                for key in self.keys.values():
                    if key.solved or not (key.kind == "a"):
                        continue
                    r = self.row_parallel(norm.st, key)
                    if r is not None:
                        key.solved = r
                        progress = True
                        break
            if not progress:
                break
        for key in self.keys.values():
            if not key.solved:
                if key.kind == "L":
                    raise Unsupported("list modified in a loop in an unrecognised way")
                key.rec = True
                key.solved = key.sym

    def solve_key(self, st, key):
        shape = self.shape_of(key)
        ph = [z3.Int(self.ctx.name("p")) for _ in shape]
        X = self.update(st, key, ph)
        xs = key.sym(self.K, *ph)
        x0 = self.entry_at(key, ph)
        K = self.K
        un = self.round_un
        own = {d.get_id() for d in key.decls}
        key.last = (X, ph)
        for f in self.ctx.closed_forms:
            S = f(self, key)
            if S is not None and not self.mentions(X, un - own):
                r = self.check_guess(st, key, S, ph)
                if r is not None:
                    key.desc = "closed form of the contract, checked by induction"
                    return r
        if T.same(X, xs):
            key.desc = "unchanged"
            return lambda k, *idx: subst(x0, [(p, zi(i)) for p, i in zip(ph, idx)]) if ph else x0
        if not self.mentions(X, un):
            # overwritten in every iteration
            Xp = subst(X, [(K, K - 1)])
            t = ite(le(K, 0), self.cast0(key, x0), Xp)
            key.desc = "overwritten"
            return self.kterm(t, ph)
        if is_z3(X) and is_z3(xs) and not T.is_bool(X):
            d = delta(X, xs)
            if d is not None and not self.mentions(d, un):
                gk = [k for k in self.keys.values() if k.solved and k.kind == "a" and k.desc.startswith("guessed")]
                if gk and key.kind == "a":
                    # an update that depends on an array with a guessed closed form: count with the array's entry content
                    sav = [(k, k.solved) for k in gk]
                    for k in gk:
                        k.solved = None
                    try:
                        n2, _ = self.norm_outs(self.body_run())
                        S2 = self.guess_count(None, key, self.update(n2.st, key, ph), x0, ph, xs, check=False) if n2 is not None else None
                    finally:
                        for k, s_ in sav:
                            k.solved = s_
                    if S2 is not None:
                        r = self.check_guess(st, key, S2, ph)
                        if r is not None:
                            return r
                tv = z3.Int(self.ctx.name("t"))
                body = subst(d, [(K, tv)])
                if T.is_conc(body):
                    S = T.mul(body, K)         # iteration numbers (and lengths) are never negative
                else:
                    S = self.ctx.sum(ph, tv, body, K)(*ph)
                key.desc = "accumulated"
                return self.kterm(T.add(self.cast0(key, x0), S), ph)
        if T.is_bool(X) and is_z3(X):
            r = self.solve_bool(key, X, xs, x0, ph, un)
            if r is not None:
                return r
        if key.kind == "a":
            r = self.row_parallel(st, key, X, ph)
            if r is not None:
                return r
        g = guarded(X, xs)
        if g is not None and g[0] is not True and g[1] is not None:
            c, v = g
            c = T.simp(c)
            if c is not True and not self.mentions(c, un) and not self.mentions(v, un):
                return self.last_write(key, c, v, x0, ph)
            if not self.mentions(v, un) and not isinstance(v, T.XF) and not isinstance(xs, T.XF):
                r = self.running_extreme(key, X, v, xs, x0, ph)
                if r is not None:
                    return r
            if key.kind == "a":
                r = self.guess_write(st, key, c, v, x0, ph, xs)
                if r is not None:
                    return r
        if key.kind == "a":
            r = self.guess_count(st, key, X, x0, ph, xs)
            if r is not None:
                return r
        return None

    def cast0(self, key, x0):
        if key.dtype in ("float", "xfloat"):
            return T.to_float(x0)
        return x0

    def running_extreme(self, key, X, v, xs, x0, ph):
        """x = max(x, v(k)) or min: closed form through the index of the largest / smallest v so far"""
        K = self.K
        if not is_z3(v) or not any(T.occurs(t, K) for t in T.terms_of(v)):
            return None
        for kind, ext in (("argmax", T.max2), ("argmin", T.min2)):
            a = z3.Real(self.ctx.name("va")) if T.is_real(v) else z3.Int(self.ctx.name("va"))
            Y = z3.substitute(X, (v, a))
            if T.is_real(v) != T.is_real(xs):
                return None
            if not self.ctx.valid([], eq(Y, ext(xs, a)), rounds=0, timeout=1000):
                continue
            tv = z3.Int(self.ctx.name("t"))
            w = self.ctx.reduction(kind, ph, [tv], subst(v, [(K, tv)]), [K])(*ph)
            x0 = self.cast0(key, x0)
            key.desc = "running " + kind[3:]
            return self.kterm(ite(le(K, 0), x0, ext(x0, subst(v, [(K, w)]))), ph)
        return None

    def last_write(self, key, c, v, x0, ph):
        K = self.K
        tv = z3.Int(self.ctx.name("t"))
        ct = subst(c, [(K, tv)])
        if isinstance(ct, bool):
            return None
        vt = T.terms_of(v)
        w = None
        if is_z3(ct) and not T.occurs(ct, tv):
            w, anyc = K - 1, and_(le(1, K), ct)
        else:
            for e in conjuncts(ct):
                if z3.is_eq(e) and e.arg(0).sort() == z3.IntSort():
                    r = solve_for(e, [tv])
                    if r is not None and self.ctx.valid([le(0, tv), lt(tv, K), ct], eq(tv, r[1]), rounds=1, timeout=1000):
                        w, anyc = r[1], and_(le(0, r[1]), lt(r[1], K), subst(ct, [(tv, r[1])]))
                        break
        if w is not None:
            key.desc = "last write"
            return self.kterm(ite(anyc, subst(v, [(K, zi(w))]), self.cast0(key, x0)), ph)
        anyc = self.ctx.reduction("any", ph, [tv], T.zb(ct), [K])(*ph)
        if any(T.occurs(t, K) for t in vt) or self.mentions(v, {K.decl().get_id()}):
            w = self.ctx.reduction("argmax", ph, [tv], ite(ct, tv, -1), [K])(*ph)
            v = subst(v, [(K, w)])
        key.desc = "last write"
        return self.kterm(ite(anyc, v, self.cast0(key, x0)), ph)

    def solve_bool(self, key, X, xs, x0, ph, un):
        K = self.K
        f1 = z3.simplify(z3.substitute(X, (xs, z3.BoolVal(True))))
        f0 = z3.simplify(z3.substitute(X, (xs, z3.BoolVal(False))))
        if self.mentions(f1, un) or self.mentions(f0, un):
            return None
        tv = z3.Int(self.ctx.name("t"))
        if z3.is_true(f1):
            a = self.ctx.reduction("any", ph, [tv], T.zb(subst(f0, [(K, tv)])), [K])(*ph)
            return self.kterm(or_(x0, a), ph)
        if z3.is_false(f0):
            a = self.ctx.reduction("any", ph, [tv], T.zb(subst(T.not_(f1), [(K, tv)])), [K])(*ph)
            return self.kterm(and_(x0, not_(a)), ph)
        return None

    def row_parallel(self, st, key, X=None, ph=None):
        if key.kind != "a":
            return None
        if X is None:
            shape = self.shape_of(key)
            ph = [z3.Int(self.ctx.name("p")) for _ in shape]
            X = self.update(st, key, ph)
        K = self.K
        xs = key.sym(K, *ph)
        shape = self.shape_of(key)
        tried = set()
        for j, p in enumerate(ph):
            offs = [0]
            for t in T.terms_of(X):
                for at in eq_atoms(t):
                    for a, b in ((at.arg(0), at.arg(1)), (at.arg(1), at.arg(0))):
                        o = z3.simplify(b - a) if a.sort() == z3.IntSort() else None
                        if o is None:
                            continue
                        # p - K - off
                        r = z3.simplify(p - K - o)
                        if z3.is_int_value(r):
                            offs.append(r.as_long())
                        r = z3.simplify(p - K + o)
                        if z3.is_int_value(r):
                            offs.append(r.as_long())
                        # symbolic offset:  p == K + c
                        for rr in (z3.simplify(p - K - o), z3.simplify(p - K + o)):
                            if not z3.is_int_value(rr) and not T.occurs(rr, p) and not T.occurs(rr, K):
                                offs.append(rr)
            seen = []
            for off in offs:
                if any(T.same(off, o) for o in seen):
                    continue
                seen.append(off)
                e = T.add(K, off)
                if not self.has_atom(X, p, e):
                    continue
                goal = or_(eq(p, e), T.ident(X, xs))
                pc = list(st.pc) + self.in_bounds(key, ph)
                if not self.ctx.valid(pc, goal, rounds=1, timeout=3000):
                    continue
                return self.mk_row(key, j, off)
        return None

    def has_atom(self, X, p, e):
        d = z3.simplify(p - zi(e))
        nd = z3.simplify(zi(e) - p)
        for t in T.terms_of(X):
            for at in eq_atoms(t, all_cmp=True):
                if at.arg(0).sort() != z3.IntSort():
                    continue
                r = z3.simplify(at.arg(0) - at.arg(1))
                if r.eq(d) or r.eq(nd):
                    return True
                s1 = z3.simplify(r - d)
                s2 = z3.simplify(r - nd)
                if z3.is_int_value(s1) or z3.is_int_value(s2):
                    return True
        return False

    def mk_row(self, key, j, off):
        nidx = len(self.shape_of(key))
        dt = "xfloat" if getattr(key, "xf", False) else key.dtype
        sv = self.ctx.loopstack
        self.ctx.loopstack = sv[:-1]
        try:
            R = self.ctx.fresh_fn_dtype(f"row{key.ident}", nidx, dt)
        finally:
            self.ctx.loopstack = sv
        key.row = (j, off, R)
        key.desc = "row-parallel"
        h0 = self.st0.heap[key.ident].fn
        box = {"row": R}
        key.box = box

        def f(k, *idx):
            e = T.add(k, off)
            inb = and_(le(off, idx[j]), lt(idx[j], e))
            inb = T.simp(inb) if is_z3(inb) else inb
            if inb is True:
                return box["row"](*idx)
            if inb is False:
                return self.cast0(key, h0(*idx))
            return ite(inb, box["row"](*idx), self.cast0(key, h0(*idx)))
        return f

    def guess_write(self, st, key, c, v, x0, ph, xs):
        """ite(any_{t<K} c0(t), v, a0) where c0 is c with the array's own entry content; checked by induction"""
        K = self.K
        own = {d.get_id() for d in key.decls}
        un = self.round_un - own
        if self.mentions(v, un | own) or self.mentions(c, un) or self.mentions(v, {K.decl().get_id()}):
            return None
        c0 = c
        for a in apps_of(c, key.decls[0]):
            idx = a.children()[-len(ph):] if ph else []
            c0 = subst(c0, [(a, T.to_z3(self.cast0(key, self.entry_at(key, [T.unz(i) for i in idx]))))])
        if self.mentions(c0, own):
            return None
        tv = z3.Int(self.ctx.name("t"))
        ct = subst(c0, [(K, tv)])
        if isinstance(ct, bool):
            return None
        anyK = self.ctx.reduction("any", ph, [tv], T.zb(ct), [K])(*ph)
        S = self.kterm(ite(anyK, v, self.cast0(key, x0)), ph)
        return self.check_guess(st, key, S, ph)

    def guess_count(self, st, key, X, x0, ph, xs, check=True):
        d = delta(X, xs)
        if d is None or not is_z3(d) or not z3.is_app_of(d, z3.Z3_OP_ITE):
            return None
        ind = indicator(d)
        if ind is None or ind[1] is None:
            return None
        c, a = ind
        # other unsolved arrays occurring in c: replaced by their entry content
        K = self.K
        c0 = c
        for k2 in self.keys.values():
            if k2.solved or k2.kind != "a":
                continue
            for t in apps_of(c0, k2.decls[0]):
                nd = len(self.shape_of(k2))
                idx = [T.unz(i) for i in t.children()[-nd:]]
                c0 = subst(c0, [(t, T.to_z3(self.cast0(k2, self.entry_at(k2, idx))))])
        if self.mentions(c0, self.unsolved_decls()):
            return None
        tv = z3.Int(self.ctx.name("t"))
        ct = subst(c0, [(K, tv)])
        if isinstance(ct, bool):
            return None
        anyK = self.ctx.reduction("any", ph, [tv], T.zb(ct), [K])(*ph)
        S = self.kterm(T.add(self.cast0(key, x0), ite(anyK, a, 0)), ph)
        if not check:
            return S
        return self.check_guess(st, key, S, ph)

    def check_guess(self, st, key, S, ph):
        """tentatively install S and verify S(0)=entry and S(K+1)=update"""
        K = self.K
        if not self.ctx.valid(self.st0.pc + self.in_bounds(key, ph), T.ident(S(0, *ph), self.cast0(key, self.entry_at(key, ph))), rounds=2):
            return None
        key.solved = S
        try:
            norm, ex = self.norm_outs(self.body_run())
            if norm is None:
                return None
            X = self.update(norm.st, key, ph)
            if self.mentions(X, self.unsolved_decls()):
                key.solved = None
                return None
            goal = T.ident(X, S(T.add(K, 1), *ph))
            if self.ctx.valid(list(norm.st.pc) + self.in_bounds(key, ph), goal, rounds=4, timeout=8000):
                key.desc = "guessed closed form, checked by induction"
                return S
            return None
        finally:
            key.solved = None

    def solve_list(self, st, key):
        c1 = st.heap[key.ident]
        c0 = self.st0.heap[key.ident]
        K = self.K
        n = key.nsym(K)
        un = self.round_un
        d = T.simp(T.sub(c1.length(), n)) if not T.same(c1.length(), n) else 0
        if d == 0:
            return lambda k: c0
        n0 = c0.length()
        if isinstance(d, int) and d > 0:
            sv = self.I.st
            self.I.st = st
            try:
                vals = [c1.at(T.add(n, i)) for i in range(d)]
            finally:
                self.I.st = sv
            for v in vals:
                if has_elem(v):
                    raise Unsupported("list elements depend on the list")
                for t in value_terms(v, st):
                    if self.mentions(t, un):
                        return None
            I = self.I
            changed = self.cid0
            outs_st = st

            def content(k):
                tot = T.add(n0, T.mul(d, k))

                def fn(j):
                    q = T.sub(j, n0)
                    it, r = (q, 0) if d == 1 else (T.floordiv(q, d), T.mod(q, d))
                    sv2 = I.st
                    h = dict(I.st.heap)
                    tmp = State(dict(outs_st.heap), {}, list(I.st.pc))
                    tmp.heap.update({c: x for c, x in I.st.heap.items() if c not in tmp.heap})
                    I.st = tmp
                    try:
                        vs = [subst_value(I, v, [(K, zi(it))], changed) for v in vals]
                        v = vs[0]
                        for i in range(1, d):
                            v = merge_val(eq(r, i), vs[i], v)
                    finally:
                        I.st = sv2
                    for c, x in tmp.heap.items():
                        if c not in I.st.heap:
                            I.st.heap[c] = x
                    if isinstance(n0, int) and n0 == 0:
                        return v
                    return merge_val(lt(j, n0), c0.at(j), v)
                return ListCell(None, tot, fn, c0.kind)
            return content
        # conditional append of one element
        if is_z3(d):
            cond = T.simp(eq(d, 1))
            if isinstance(cond, bool) or self.mentions(cond, un):
                return None
            if not self.ctx.valid(st.pc, or_(eq(d, 0), eq(d, 1)), rounds=1):
                return None
            sv = self.I.st
            self.I.st = st
            st2 = st.clone()
            st2.pc.append(cond)
            self.I.st = st2
            try:
                v = c1.at(n)
            finally:
                self.I.st = sv
            if not T.is_scalar(v) or self.mentions(v, un):
                if not isinstance(v, (str, Opaque)) or has_elem(v):
                    return None
            tv = z3.Int(self.ctx.name("t"))
            cnt, at, rank = self.ctx.reduction("where1", [], [tv], T.zb(subst(cond, [(K, tv)])), [K])()

            def content(k):
                sub = [(K, zi(k))]
                c = subst(cnt, sub)

                def fn(j):
                    w = subst(at(T.sub(j, n0)), sub)
                    vv = subst(v, [(K, zi(w))]) if T.is_scalar(v) else v
                    if isinstance(n0, int) and n0 == 0:
                        return vv
                    return merge_val(lt(j, n0), c0.at(j), vv)
                return ListCell(None, T.add(n0, c), fn, c0.kind)
            return content
        return None

    # ---------- main ----------
    def run(self):
        I, ctx = self.I, self.ctx
        self.st0 = I.st.clone()
        self.cid0 = I.ncid
        self.K = z3.Int(ctx.name("K"))
        act = ctx.fresh("act", z3.BoolSort())
        self.st0.pc.append(act)
        if self.n is not None:
            self.n = T.simp(self.n)
        outermost = not ctx.loopstack
        saved_base = getattr(I, "loop_pc_base", None)
        ctx.loopstack.append(self.K)
        if ctx.loopkeys:
            I.st.ch += 1
            ctx.loopkeys.append((ctx.loopkeys[-1], I.st.ch, self.s.lineno))
        else:
            ctx.loopkeys.append((None, next(ctx.uid), self.s.lineno))
        self.st0.ch = 0
        self.ch_after = I.st.ch
        if outermost:
            I.loop_pc_base = len(self.st0.pc) - 1
        ctx.mute += 1
        muted = True
        try:
            norm, ex = self.discover()
            if norm is not None:
                self.solve()
            ctx.mute -= 1
            muted = False
            if any(getattr(k, "rec", False) for k in self.keys.values()):
                self.recurrences()
            if ctx.loop_prev:
                self.previous()
            outs = self.body_run()
            norm, ex = self.norm_outs(outs)
            self.define(norm)
        finally:
            if muted:
                ctx.mute -= 1
            ctx.loopstack.pop()
            ctx.loopkeys.pop()
            I.loop_pc_base = saved_base
            if saved_base is None:
                del I.loop_pc_base
        self.st0.ch = self.ch_after
        outs = self.finish(norm, ex, act)
        for o in outs:
            o.st.ch = self.ch_after
        return outs

    def previous(self):
        """the obligations and assumptions of iteration K-1, which was completed, as a hypothesis in iteration K"""
        self.ctx.mute += 1
        try:
            norm, ex = self.norm_outs(self.body_run())
        finally:
            self.ctx.mute -= 1
        if norm is not None:
            fs = norm.st.pc[len(self.st0.pc) + len(self.guard()):]
            self.prev = implies(le(1, self.K), and_(*[subst(f, [(self.K, self.K - 1)]) for f in fs]))

    def recurrences(self):
        """x(0)=entry, x(t+1)=X(t) for the locations without a closed form; inferred bounds (Houdini)"""
        ctx, K = self.ctx, self.K
        ctx.mute += 1
        try:
            norm, ex = self.norm_outs(self.body_run())
            if norm is None:
                return
            recs = [k for k in self.keys.values() if getattr(k, "rec", False)]
            ups = {}
            for key in recs:
                ph = [z3.Int(ctx.name("p")) for _ in self.shape_of(key)]
                ups[id(key)] = (self.update(norm.st, key, ph), ph)
            cands = []
            for key in recs:
                X, ph = ups[id(key)]
                for c in self.candidates(key, ph):
                    cands.append((key, c))
            base = list(self.st0.pc)
            keep = []
            for key, c in cands:
                X, ph = ups[id(key)]
                x0 = self.cast0(key, self.entry_at(key, ph))
                if ctx.valid(base + self.in_bounds(key, ph), c(x0, ph, 0), rounds=1, timeout=1500):
                    keep.append((key, c))
            changed = True
            while changed and keep:
                changed = False
                # the candidates are needed at the symbols' own argument; installed as temporary facts
                hyp = []
                for key, c in keep:
                    for a in self.sym_apps(norm.st, key, [u for u, _ in ups.values()]):
                        idx = a.children()[len(ctx.loopstack):]
                        hyp.append(implies(and_(*self.in_bounds(key, idx)), c(key.sym(K, *idx), idx, K)))
                for key, c in list(keep):
                    X, ph = ups[id(key)]
                    own = c(key.sym(K, *ph), ph, K)
                    ghost = getattr(c, "ghost", False)
                    if ghost:
                        # proposed by a contract: the hypothesis for all elements, also inside sums
                        jj = [z3.Int(ctx.name("gi")) for _ in ph]
                        sj = key.sym(K, *jj)
                        undo = self.temp_fact(jj, implies(and_(*self.in_bounds(key, jj)), c(sj, jj, K)), T.terms_of(sj))
                    try:
                        hs, g = list(norm.st.pc) + hyp + [own] + self.in_bounds(key, ph), c(X, ph, T.add(K, 1))
                        ok = any(ctx.valid(hs, g, rounds=r, timeout=tm, strict=sx) for r, tm, sx in
                                 ([(3, 5000, 2), (4, 10000, False)] if ghost else [(1, 2500, False)]))
                    finally:
                        if ghost:
                            undo()
                    if not ok:
                        keep.remove((key, c))
                        changed = True
            self.kept = keep
            act = self.st0.pc[-1]
            outer = list(ctx.loopstack[:-1])
            for key in recs:
                X, ph = ups[id(key)]
                x0 = self.cast0(key, self.entry_at(key, ph))
                inb = self.in_bounds(key, ph)
                s0 = key.sym(0, *ph)
                f0 = implies(and_(act, *inb), T.ident(s0, x0))
                ctx.assume_forall(outer + ph, f0, "loop entry", pats=T.terms_of(s0), defs=key.decls)
                s1 = key.sym(T.add(K, 1), *ph)
                rest = [p for p in norm.st.pc[len(self.st0.pc):]]
                f1 = implies(and_(act, *inb, *rest), T.ident(s1, X))
                ctx.assume_forall(outer + [K] + ph, f1, "loop step", pats=T.terms_of(s1), defs=key.decls)
            for key, c in keep:
                X, ph = ups[id(key)]
                s = key.sym(K, *ph)
                g = [le(0, K)] + ([le(K, self.n)] if self.n is not None else [])
                ctx.assume_forall(outer + [K] + ph, implies(and_(act, *g, *self.in_bounds(key, ph)), c(s, ph, K)),
                                  "loop invariant", pats=T.terms_of(s))
                ctx.loop_invariants = getattr(ctx, "loop_invariants", 0) + 1
        finally:
            ctx.mute -= 1

    def temp_fact(self, vs, f, pats):
        ctx = self.ctx
        lf, gr = {k: list(v) for k, v in ctx.lfacts.items()}, list(ctx.ground)
        ctx.assume_forall(vs, f, "hypothesis", pats=pats)

        def undo():
            ctx.lfacts.clear()
            ctx.lfacts.update(lf)
            ctx.ground[:] = gr
        return undo

    def sym_apps(self, st, key, terms):
        out = {}
        for t in list(terms) + [p for p in st.pc if is_z3(p)]:
            for a in apps_of(t, key.decls[0]):
                out[a.get_id()] = a
        return list(out.values())

    def candidates(self, key, ph):
        out = []
        if key.dtype in ("int", "float"):
            out.append(lambda x, p, k: T.le(0, x))
            if key.dtype == "int":
                for D in self.ctx.dims:
                    out.append(lambda x, p, k, D=D: T.lt(x, D))
            else:
                out.append(lambda x, p, k: T.le(x, 1))
        for f in self.ctx.inv_candidates:
            g = f(self, key)
            if g is not None:
                out.append(g)
        return out

    def define(self, norm):
        """rows of row-parallel arrays; export of the per-iteration facts"""
        ctx, K = self.ctx, self.K
        if norm is None:
            return
        act = self.st0.pc[-1]
        outer = list(ctx.loopstack[:-1])
        rows = [k for k in self.keys.values() if k.row]
        rdecls = set()
        for k in rows:
            rdecls |= {k.row[2].decl.get_id()}
        for key in rows:
            j, off, R = key.row
            ph = [z3.Int(ctx.name("p")) for _ in self.shape_of(key)]
            X = self.update(norm.st, key, ph)
            it = T.sub(ph[j], off)
            rest = [p for p in norm.st.pc[len(self.st0.pc):]]
            sub = [(K, zi(it))]
            F = prune(subst(X, sub))
            hyp = and_(act, *[subst(p, sub) for p in rest], *self.in_bounds(key, ph))
            r = R(*ph)
            # facts used as hypotheses must themselves hold for the iteration: they do, they are obligations/assumptions
            g = [le(0, it)] + ([lt(it, self.n)] if self.n is not None else [])
            ctx.assume_forall(outer + ph, implies(and_(act, *g, *self.in_bounds(key, ph)), T.ident(r, F)), "row",
                              pats=T.terms_of(r), defs=[R.decl])
            if not (ctx.deep_decls(F) & rdecls):
                tm = F

                def row(*idx, tm=tm, ph=ph):
                    return subst(tm, [(p, zi(i)) for p, i in zip(ph, idx)])
                key.box2 = row

    def finish(self, norm, ex, act):
        I, ctx, K, n = self.I, self.ctx, self.K, self.n
        outs = []
        base = len(self.st0.pc)
        outer = list(ctx.loopstack)
        done = None
        if ex:
            done = ctx.fresh("done", z3.BoolSort())
        facts = []
        if norm is not None:
            facts = [p for p in norm.st.pc[base:]]
            ng = len(self.guard())
            facts = facts[ng:]
        for key in self.keys.values():
            if getattr(key, "box2", None):
                key.box["row"] = key.box2
        if n is not None:
            st = self.st0.clone()
            if done is not None:
                st.pc.append(done)
            gl = [act] + ([done] if done is not None else [])
            for f in facts:
                ctx.assume_forall(outer + [K], implies(and_(*gl, le(0, K), lt(K, n)), f), "iteration")
            if norm is None:
                st.pc.append(le(n, 0))
            st_heap_new = norm.st.heap if norm is not None else {}
            self.leave(st, norm, n)
            outs.append(Outcome(st, "normal"))
        for o in ex:
            e = ctx.fresh("exit", z3.IntSort())
            st = self.st0.clone()
            if done is not None:
                st.pc.append(not_(done))
            st.pc += [le(0, e)] + ([lt(e, n)] if n is not None else [])
            for f in facts:
                ctx.assume_forall(outer + [K], implies(and_(act, le(0, K), lt(K, e)), f), "iteration before exit")
                # last completed iteration, as a ground fact
                st.pc.append(implies(le(1, e), subst(f, [(K, zi(e) - 1)])))
            sub = [(K, e)]
            for p in o.st.pc[base + len(self.guard()):]:
                q = subst(p, sub)
                if q is not True:
                    st.pc.append(q)
            st.heap = dict(self.st0.heap)
            src = o.st
            # modified cells and cells created by the body, seen at K := exit
            newheap = {}
            for cid, c in src.heap.items():
                c0 = self.st0.heap.get(cid)
                if c0 is c:
                    continue
                newheap[cid] = self.sub_cell(src, c, sub)
            st.heap.update(newheap)
            st.loc = {nm: self.sub_loc(v, sub) for nm, v in src.loc.items()}
            st.loc = {nm: (v if not (isinstance(v, Poison) and v is self.poison.get(nm)) else self.st0.loc.get(nm, UNDEF)) for nm, v in st.loc.items()}
            val = self.sub_loc(o.val, sub) if o.val is not None else None
            kind = "normal" if o.kind == "break" else o.kind
            if not ctx.sat_light(st.pc):
                continue
            outs.append(Outcome(st, kind, val))
        if self.s.orelse:
            raise Unsupported("for-else over a symbolic range")
        return I.join(outs, base) if len(outs) > 1 else outs

    def sub_cell(self, src, c, sub):
        if isinstance(c, ArrCell):
            f = c.fn
            return ArrCell([subst(d, sub) for d in c.shape], c.dtype, template(f, len(c.shape), self.I, sub), c.frozen)
        if isinstance(c, ListCell):
            if c.items is not None:
                return ListCell([self.sub_loc(x, sub) for x in c.items], kind=c.kind)
            fn = c.fn
            return ListCell(None, subst(c.n, sub), lambda k: self.sub_loc(fn(k), sub), c.kind)
        if isinstance(c, ObjCell):
            return ObjCell(c.cls, {k: self.sub_loc(x, sub) for k, x in c.fields.items()})
        if isinstance(c, DictCell):
            if c.fam is not None:
                return c
            return DictCell([(self.sub_loc(k, sub), self.sub_loc(x, sub)) for k, x in c.items])
        return c

    def sub_loc(self, v, sub):
        """substitution that keeps cell ids (the whole heap is substituted)"""
        if T.is_scalar(v):
            return subst(v, sub)
        if isinstance(v, tuple):
            return tuple(self.sub_loc(x, sub) for x in v)
        if isinstance(v, FamRef):
            return FamRef(v.cid, subst(v.idx, sub))
        if isinstance(v, Case):
            return Case([(subst(g, sub), self.sub_loc(x, sub)) for g, x in v.alts])
        if isinstance(v, Arr):
            shape = tuple(subst(d, sub) for d in v.shape)
            axes = v.axes
            if axes is not None:
                axes = tuple((ax[0], subst(ax[1], sub)) if ax[0] == "f" else (ax[0], ax[1], subst(ax[2], sub), ax[3]) for ax in axes)
            return Arr(v.cid, shape, axes)
        return v

    def leave(self, st, norm, n):
        """state after n complete iterations"""
        I = self.I
        for key in self.keys.values():
            self.install(st, key, n)
        if norm is None:
            return
        sub = [(self.K, zi(n) - 1)]
        ran = T.simp(lt(0, n)) if is_z3(lt(0, n)) else lt(0, n)
        if ran is not True and I.ctx.valid_light(self.st0.pc, ran):
            ran = True
        sv = I.st
        I.st = st
        # cells created in the body are visible to surviving temporaries
        for cid, c in norm.st.heap.items():
            if cid not in st.heap:
                st.heap[cid] = c
        try:
            for nm in self.poison_names:
                if ("l", nm) in self.keys or nm.startswith("$"):
                    continue
                if nm in self.stable:
                    st.loc[nm] = self.stable[nm]
                    continue
                v = norm.st.loc.get(nm, UNDEF)
                entry = self.st0.loc.get(nm, UNDEF)
                if isinstance(v, Poison):
                    # never assigned in the body, or assigned in an unreadable way
                    st.loc[nm] = entry if v is self.poison.get(nm) else v
                    continue
                if isinstance(v, Case) and any(isinstance(x, Poison) for _, x in v.alts):
                    st.loc[nm] = Poison("after:" + nm)
                    continue
                try:
                    v = subst_value(I, v, sub, self.cid0)
                except Unsupported:
                    st.loc[nm] = Poison("after:" + nm)
                    continue
                if ran is True:
                    st.loc[nm] = v
                elif ran is False:
                    st.loc[nm] = entry
                else:
                    try:
                        st.loc[nm] = I.merge_v(ran, v, entry, st)
                    except NoMerge:
                        st.loc[nm] = Case([(ran, v), (not_(ran), entry)])
        finally:
            I.st = sv


class ListElem:
    """element of a list under construction (value at the start of iteration k)"""

    def __init__(self, key, k, j):
        self.key, self.k, self.j = key, k, j


def conjuncts(t):
    if z3.is_and(t):
        return [x for c in t.children() for x in conjuncts(c)]
    return [t]


def has_elem(v):
    if isinstance(v, ListElem):
        return True
    if isinstance(v, Case):
        return any(has_elem(x) for _, x in v.alts)
    if isinstance(v, tuple):
        return any(has_elem(x) for x in v)
    return False


def value_terms(v, st):
    if T.is_scalar(v):
        return T.terms_of(v)
    if isinstance(v, tuple):
        return [t for x in v for t in value_terms(x, st)]
    if isinstance(v, FamRef):
        return T.terms_of(v.idx)
    if isinstance(v, Arr):
        c = st.heap[v.cid]
        return T.terms_of(c.fn(*[z3.Int(f"vt_{i}") for i in range(len(c.shape))]))
    if isinstance(v, ListRef) and v.cid in st.heap:
        c = st.heap[v.cid]
        if c.items is not None:
            return [t for x in c.items for t in value_terms(x, st)]
        x = c.fn(z3.Int("vt_0"))
        return T.terms_of(c.n) + ([] if isinstance(x, ListElem) else value_terms(x, st))
    return []


def eq_atoms(t, all_cmp=False):
    out, seen = [], set()
    stack = [t]
    kinds = (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) if all_cmp else (z3.Z3_OP_EQ,)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() in kinds and x.arg(0).sort() == z3.IntSort():
                out.append(x)
            stack.extend(x.children())
    return out


# ------------------------------------------------------------------ comprehensions
def comprehension(I, e, kind):
    if len(e.generators) != 1:
        return nested_comp(I, e, kind)
    g = e.generators[0]
    it = I.resolve(I.ev(g.iter))
    items = _unrollable(I, it)
    saved = dict(I.st.loc)
    if items is not None:
        out = []
        for x in items:
            I.assign(g.target, x)
            keep = True
            for c in g.ifs:
                if not I.decide(I.truth(I.ev(c))):
                    keep = False
                    break
            if keep:
                out.append(I.ev(e.elt))
        restore(I, saved, g.target)
        return I.new_list(out)
    n = T.simp(I.length(it))
    if isinstance(n, int) and n <= MAX_UNROLL:
        out = []
        for k in range(n):
            I.assign(g.target, I.iter_at(it, k))
            if all(I.decide(I.truth(I.ev(c))) for c in g.ifs):
                out.append(I.ev(e.elt))
        restore(I, saved, g.target)
        return I.new_list(out)
    ctx = I.ctx
    K = z3.Int(ctx.name("K"))
    cid0 = I.ncid
    heap0 = dict(I.st.heap)
    act = ctx.fresh("act", z3.BoolSort())
    I.st.pc.append(act)
    npc = len(I.st.pc)
    outermost = not ctx.loopstack
    sb = getattr(I, "loop_pc_base", None)
    ctx.loopstack.append(K)
    if outermost:
        I.loop_pc_base = npc - 1
    pos0 = I.pos
    try:
        I.st.pc += [le(0, K), lt(K, n)]
        I.assign(g.target, I.iter_at(it, K))
        conds = []
        for c in g.ifs:
            t = I.truth(I.ev(c))
            conds.append(t)
            if t is not True:
                I.st.pc.append(t)
        v = I.resolve(I.ev(e.elt))
        if I.pos != pos0:
            raise Unsupported("fork inside a symbolic comprehension")
    finally:
        ctx.loopstack.pop()
        I.loop_pc_base = sb
        if sb is None:
            del I.loop_pc_base
    facts = I.st.pc[npc + 2:]
    del I.st.pc[npc:]
    for f in facts:
        if not any(f is c for c in conds):
            ctx.assume_forall(list(ctx.loopstack) + [K], implies(and_(act, le(0, K), lt(K, n), *[c for c in conds]), f), "comprehension")
    for cid, c in heap0.items():
        if I.st.heap.get(cid) is not c:
            raise Unsupported("side effects in a comprehension")
    restore(I, saved, g.target)
    cond = and_(*conds)

    def elem(k):
        if isinstance(v, Arr) and v.cid > cid0:
            return subst_value(I, v, [(K, zi(k))], cid0)
        return subst_value(I, v, [(K, zi(k))], cid0)
    if cond is True:
        r = (n, elem)
    else:
        tv = z3.Int(ctx.name("t"))
        ct = subst(cond, [(K, tv)])
        cnt, at, rank = ctx.reduction("where1", [], [tv], T.zb(ct), [n])()
        r = (cnt, lambda k: elem(at(k)))
    return I.new_list(None, r[0], r[1])


def restore(I, saved, target):
    for x in ast.walk(target):
        if isinstance(x, ast.Name):
            if x.id in saved:
                I.st.loc[x.id] = saved[x.id]
            else:
                I.st.loc.pop(x.id, None)


def nested_comp(I, e, kind):
    out = []
    saved = dict(I.st.loc)

    def rec(gs):
        if not gs:
            out.append(I.ev(e.elt))
            return
        g = gs[0]
        items = _unrollable(I, I.resolve(I.ev(g.iter)))
        if items is None:
            raise Unsupported("nested comprehension over symbolic ranges")
        for x in items:
            I.assign(g.target, x)
            if all(I.decide(I.truth(I.ev(c))) for c in g.ifs):
                rec(gs[1:])
    rec(e.generators)
    for g in e.generators:
        restore(I, saved, g.target)
    return I.new_list(out)


def dict_comprehension(I, e):
    if len(e.generators) != 1:
        raise Unsupported("nested dict comprehension")
    g = e.generators[0]
    it = I.resolve(I.ev(g.iter))
    items = _unrollable(I, it)
    if items is None:
        raise Unsupported("dict comprehension over a symbolic range")
    saved = dict(I.st.loc)
    out = []
    for x in items:
        I.assign(g.target, x)
        if all(I.decide(I.truth(I.ev(c))) for c in g.ifs):
            I.dict_put(out, I.ev(e.key), I.ev(e.value))
    restore(I, saved, g.target)
    return DictRef(I.alloc(DictCell(out)))
