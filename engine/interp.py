"""Symbolic interpreter / verification-condition generator for the Python subset used in maMDP.

Works on the AST of the repository's *current* source.  States are explored statement by statement; alternative
branches are joined with if-then-else where the joined values allow it.  Loops over symbolic ranges are summarised
in loops.py; calls to functions with a registered contract use the contract, other repository functions are
executed in line."""
import ast
import os
import z3
from fractions import Fraction
from . import terms as T
from .terms import Unsupported, and_, or_, not_, eq, ne, le, lt, ite, implies, is_z3
from .values import *
from .values import _alts

BUILTIN_EXC = {"BaseException": None, "Exception": "BaseException", "ValueError": "Exception", "TypeError": "Exception",
               "AttributeError": "Exception", "LookupError": "Exception", "IndexError": "LookupError",
               "KeyError": "LookupError", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
               "AssertionError": "Exception", "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError",
               "NameError": "Exception", "UnboundLocalError": "NameError", "Warning": "Exception",
               "StopIteration": "Exception", "UserWarning": "Warning", "DeprecationWarning": "Warning",
               "RuntimeWarning": "Warning", "OverflowError": "ArithmeticError", "OSError": "Exception"}
BUILTIN_FN = ["len", "range", "enumerate", "zip", "list", "tuple", "dict", "set", "int", "float", "bool", "str", "sum",
              "max", "min", "abs", "any", "all", "isinstance", "print", "type", "sorted", "reversed", "round", "map",
              "getattr", "setattr", "hasattr", "super", "object", "iter", "next", "divmod", "filter", "pow", "slice",
              "frozenset", "repr", "id", "property", "staticmethod", "classmethod", "callable", "issubclass"]


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class NeedFork(Exception):
    def __init__(self, n):
        self.n = n


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.ns = {}


class Anf(ast.NodeTransformer):
    """hoist calls out of larger expressions into temporaries, preserving evaluation order"""

    def __init__(self):
        self.n = 0
        self.pre = []

    def tmp(self, node):
        self.n += 1
        nm = f"$t{self.n}"
        self.pre.append(ast.copy_location(ast.Assign(targets=[ast.copy_location(ast.Name(nm, ast.Store()), node)],
                                                     value=node, lineno=node.lineno), node))
        return ast.copy_location(ast.Name(nm, ast.Load()), node)

    @staticmethod
    def has_call(node):
        """a call that hoisting may move"""
        if isinstance(node, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return False
        if isinstance(node, ast.Call):
            return True
        if isinstance(node, ast.BoolOp):
            return Anf.has_call(node.values[0])
        if isinstance(node, ast.IfExp):
            return Anf.has_call(node.test)
        if isinstance(node, ast.Compare) and len(node.ops) > 1:
            return Anf.has_call(node.left) or Anf.has_call(node.comparators[0])
        return any(Anf.has_call(c) for c in ast.iter_child_nodes(node))

    def seq(self, nodes, top=False):
        """process operands evaluated left to right"""
        out = []
        later = [any(self.has_call(m) for m in nodes[i + 1:]) for i in range(len(nodes))]
        for i, n in enumerate(nodes):
            e = self.ex(n)
            if later[i] and not isinstance(e, (ast.Constant, ast.Name, ast.Starred, ast.Slice)):
                if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
                    pass        # plain attribute path: cheap, evaluated after the hoisted calls
                elif isinstance(e, (ast.Tuple, ast.List, ast.Slice)):
                    pass
                else:
                    e = self.tmp(e)
            out.append(e)
        return out

    def ex(self, e, keep=False):
        """return an expression without hoistable calls; keep: a call at the root may stay"""
        if e is None or not self.has_call(e):
            return e
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute):
                nodes = [f.value] + e.args + [k.value for k in e.keywords]
            else:
                nodes = [f] + e.args + [k.value for k in e.keywords]
            nodes = [n.value if isinstance(n, ast.Starred) else n for n in nodes]
            r = self.seq(nodes)
            na = len(e.args)
            if isinstance(f, ast.Attribute):
                nf = ast.copy_location(ast.Attribute(r[0], f.attr, ast.Load()), f)
            else:
                nf = r[0]
            args = []
            for a, n in zip(e.args, r[1:1 + na]):
                args.append(ast.copy_location(ast.Starred(n, ast.Load()), a) if isinstance(a, ast.Starred) else n)
            kws = [ast.keyword(k.arg, n) for k, n in zip(e.keywords, r[1 + na:])]
            c = ast.copy_location(ast.Call(nf, args, kws), e)
            return c if keep else self.tmp(c)
        if isinstance(e, ast.BoolOp):
            return ast.copy_location(ast.BoolOp(e.op, [self.ex(e.values[0])] + e.values[1:]), e)
        if isinstance(e, ast.IfExp):
            return ast.copy_location(ast.IfExp(self.ex(e.test), e.body, e.orelse), e)
        if isinstance(e, ast.BinOp):
            l, r = self.seq([e.left, e.right])
            return ast.copy_location(ast.BinOp(l, e.op, r), e)
        if isinstance(e, ast.UnaryOp):
            return ast.copy_location(ast.UnaryOp(e.op, self.ex(e.operand)), e)
        if isinstance(e, ast.Compare):
            if len(e.ops) == 1:
                l, r = self.seq([e.left, e.comparators[0]])
                return ast.copy_location(ast.Compare(l, e.ops, [r]), e)
            l, r = self.seq([e.left, e.comparators[0]])
            return ast.copy_location(ast.Compare(l, e.ops, [r] + e.comparators[1:]), e)
        if isinstance(e, ast.Attribute):
            return ast.copy_location(ast.Attribute(self.ex(e.value), e.attr, e.ctx), e)
        if isinstance(e, ast.Subscript):
            l, r = self.seq([e.value, e.slice])
            return ast.copy_location(ast.Subscript(l, r, e.ctx), e)
        if isinstance(e, ast.Tuple):
            return ast.copy_location(ast.Tuple(self.seq(e.elts), e.ctx), e)
        if isinstance(e, ast.List):
            return ast.copy_location(ast.List(self.seq(e.elts), e.ctx), e)
        if isinstance(e, ast.Slice):
            l = [x for x in (e.lower, e.upper, e.step) if x is not None]
            r = self.seq(l)
            it = iter(r)
            return ast.copy_location(ast.Slice(*[next(it) if x is not None else None for x in (e.lower, e.upper, e.step)]), e)
        if isinstance(e, ast.Starred):
            return ast.copy_location(ast.Starred(self.ex(e.value), e.ctx), e)
        if isinstance(e, ast.Dict):
            return e
        return e

    def block(self, stmts):
        out = []
        for s in stmts:
            self.pre = []
            s2 = self.stmt(s)
            pre, self.pre = self.pre, []
            out.extend(pre)
            out.append(s2)
        return out

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.ex(s.value, keep=True)
            tgts = []
            for t in s.targets:
                if isinstance(t, ast.Subscript) and self.has_call(t):
                    if isinstance(v, ast.Call):
                        v = self.tmp(v)
                    t = self.ex(t)
                tgts.append(t)
            return ast.copy_location(ast.Assign(tgts, v, lineno=s.lineno), s)
        if isinstance(s, ast.AugAssign):
            t = s.target
            if isinstance(t, ast.Subscript) and self.has_call(t):
                t = self.ex(t)
                t = ast.copy_location(ast.Subscript(t.value, t.slice, ast.Store()), t)
            return ast.copy_location(ast.AugAssign(t, s.op, self.ex(s.value)), s)
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return ast.copy_location(ast.Pass(), s)
            return ast.copy_location(ast.Assign([s.target], self.ex(s.value, keep=True), lineno=s.lineno), s)
        if isinstance(s, ast.Expr):
            return ast.copy_location(ast.Expr(self.ex(s.value, keep=True)), s)
        if isinstance(s, ast.Return):
            return ast.copy_location(ast.Return(self.ex(s.value, keep=True)), s)
        if isinstance(s, ast.If):
            test = self.ex(s.test)
            pre = self.pre
            body, orelse = self.block(s.body), self.block(s.orelse)
            self.pre = pre
            return ast.copy_location(ast.If(test, body, orelse), s)
        if isinstance(s, ast.For):
            it = self.ex(s.iter)
            pre = self.pre
            body, orelse = self.block(s.body), self.block(s.orelse)
            self.pre = pre
            return ast.copy_location(ast.For(s.target, it, body, orelse, lineno=s.lineno), s)
        if isinstance(s, ast.While):
            pre = self.pre
            body, orelse = self.block(s.body), self.block(s.orelse)
            self.pre = pre
            return ast.copy_location(ast.While(s.test, body, orelse), s)
        if isinstance(s, ast.Try):
            pre = self.pre
            body = self.block(s.body)
            hs = []
            for h in s.handlers:
                hs.append(ast.copy_location(ast.ExceptHandler(h.type, h.name, self.block(h.body)), h))
            orelse, fin = self.block(s.orelse), self.block(s.finalbody)
            self.pre = pre
            return ast.copy_location(ast.Try(body, hs, orelse, fin), s)
        if isinstance(s, ast.With):
            pre = self.pre
            body = self.block(s.body)
            self.pre = pre
            return ast.copy_location(ast.With(s.items, body, lineno=s.lineno), s)
        if isinstance(s, ast.Assert):
            return ast.copy_location(ast.Assert(self.ex(s.test), s.msg), s)
        return s


class Interp:
    def __init__(self, ctx, root="/repo", package="maMDP"):
        self.ctx = ctx
        self.root, self.package = root, package
        self.modules = {}
        self.contracts = {}        # qual -> handler(I, fv, args, kwargs) -> value or list of outcomes
        self.used_contracts = set()
        self.inlined = set()
        self.used_lib = set()
        self.st = State()
        self.script, self.pos = None, 0
        self.ncid = 0
        self.frame_base = 0        # cells up to this one existed before the current call
        self.depth = 0
        self.frames = []           # (FuncV) stack
        self.in_try = 0
        self.anf_cache = {}
        self.loc_note = ""
        self.unroll_max = 12
        self.valid_cache = {}
        self.symbolic_branches = 0
        from . import nplib
        self.lib = nplib.LIB
        self.methods = nplib.METHODS

    # ================= modules =================
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.root, *name.split("."))
        if os.path.isdir(path):
            path = os.path.join(path, "__init__.py")
        else:
            path += ".py"
        if not os.path.exists(path):
            raise Unsupported(f"module {name} not found")
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src)
        m = Module(name, path, tree)
        self.modules[name] = m
        for node in tree.body:
            self._top(m, node)
        return m

    def _top(self, m, node):
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    m.ns[a.asname] = ModV(a.name)
                else:
                    m.ns[a.name.split(".")[0]] = ModV(a.name.split(".")[0])
        elif isinstance(node, ast.ImportFrom):
            base = node.module or ""
            if node.level:
                parts = m.name.split(".")
                if not m.path.endswith("__init__.py"):
                    parts = parts[:-1]
                parts = parts[:len(parts) - (node.level - 1)]
                base = ".".join(parts + ([node.module] if node.module else []))
            if base == self.package or base.startswith(self.package + "."):
                for a in node.names:
                    m.ns[a.asname or a.name] = ("lazy", base, a.name)
            else:
                for a in node.names:
                    m.ns[a.asname or a.name] = LibV(base + "." + a.name)
        elif isinstance(node, (ast.FunctionDef,)):
            m.ns[node.name] = FuncV(node, m)
        elif isinstance(node, ast.ClassDef):
            m.ns[node.name] = ("class", node)
        elif isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            m.ns[node.targets[0].id] = ("expr", node.value)
        elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name) and node.value is not None:
            m.ns[node.target.id] = ("expr", node.value)
        elif isinstance(node, (ast.If, ast.Try)):
            for n in node.body:
                self._top(m, n)

    def mod_lookup(self, m, name):
        if name not in m.ns:
            # star imports
            for node in m.tree.body:
                if isinstance(node, ast.ImportFrom) and any(a.name == "*" for a in node.names) and node.level:
                    parts = m.name.split(".")[:-1]
                    parts = parts[:len(parts) - (node.level - 1)]
                    base = ".".join(parts + ([node.module] if node.module else []))
                    mm = self.load(base)
                    if name in mm.ns:
                        return self.mod_lookup(mm, name)
            return None
        v = m.ns[name]
        if isinstance(v, tuple) and v and v[0] == "lazy":
            _, base, nm = v
            try:
                mm = self.load(base)
                r = self.mod_lookup(mm, nm)
            except Unsupported:
                r = None
            if r is None:
                try:
                    self.load(base + "." + nm)
                    r = ModV(base + "." + nm)
                except Unsupported:
                    r = Opaque(base + "." + nm)
            m.ns[name] = r
            return r
        if isinstance(v, tuple) and v and v[0] == "class":
            c = self.make_class(m, v[1])
            return c
        if isinstance(v, tuple) and v and v[0] == "expr":
            st, loc = self.st, self.st.loc
            self.st.loc = {}
            fr = self.frames
            self.frames = self.frames + [FuncV(ast.Module([], []), m)]
            try:
                r = self.ev(v[1])
            finally:
                self.st.loc = loc
                self.frames = fr
            if not isinstance(r, (Arr, ListRef, DictRef, ObjRef)):
                m.ns[name] = r
            return r
        return v

    def make_class(self, m, node):
        bases = []
        c = ClassV(node.name, m, node, bases)
        m.ns[node.name] = c
        for b in node.bases:
            try:
                bases.append(self.static_eval(m, b))
            except Unsupported:
                bases.append(Opaque("base"))
        self._class_body(c, m, node.body)
        return c

    def _class_body(self, c, m, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                f = FuncV(n, m, c)
                deco = [ast.unparse(d) for d in n.decorator_list]
                if "property" in deco or any(d.endswith("cached_property") for d in deco):
                    c.members[n.name] = PropV(f, None)
                elif any(d.endswith(".setter") for d in deco):
                    old = c.members.get(n.name)
                    c.members[n.name] = PropV(old.fget if isinstance(old, PropV) else None, f)
                elif "staticmethod" in deco:
                    f.static = True
                    c.members[n.name] = f
                elif "classmethod" in deco:
                    c.members[n.name] = ("classmethod", f)
                else:
                    c.members[n.name] = f
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                c.members[self.mangle(n.targets[0].id, c)] = ("expr", n.value)

    def static_eval(self, m, node):
        if isinstance(node, ast.Name):
            v = self.mod_lookup(m, node.id)
            if v is None:
                if node.id in BUILTIN_EXC:
                    return LibV("exc." + node.id)
                return LibV("builtins." + node.id)
            return v
        if isinstance(node, ast.Attribute):
            b = self.static_eval(m, node.value)
            if isinstance(b, ModV):
                return LibV(b.path + "." + node.attr)
        raise Unsupported("base class expression")

    def get(self, qual):
        """maMDP.mdp.MDP.get_next_state -> FuncV / ClassV"""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mn = ".".join(parts[:i])
            p = os.path.join(self.root, *parts[:i])
            if os.path.exists(p + ".py") or os.path.isdir(p):
                m = self.load(mn)
                v = self.mod_lookup(m, parts[i])
                if v is None:
                    raise Unsupported(f"{qual} does not exist")
                for nm in parts[i + 1:]:
                    if not isinstance(v, ClassV):
                        raise Unsupported(f"{qual} does not exist")
                    v = v.lookup(nm)
                    if v is None:
                        raise Unsupported(f"{qual} does not exist")
                return v
        raise Unsupported(f"{qual} does not exist")

    # ================= heap =================
    def alloc(self, cell):
        self.ncid += 1
        self.st.heap[self.ncid] = cell
        return self.ncid

    def new_arr(self, shape, dtype, fn, note=None):
        cid = self.alloc(ArrCell(shape, dtype, fn, note=note))
        return Arr(cid, shape)

    def new_list(self, items=None, n=None, fn=None, kind="list"):
        return ListRef(self.alloc(ListCell(items, n, fn, kind)))

    def cell(self, ref):
        return self.st.heap[ref.cid]

    def arr_fn(self, a):
        """snapshot reader: idx tuple -> scalar"""
        cell = self.st.heap[a.cid]
        f = cell.fn
        if a.axes is None:
            return f
        axes = a.axes

        def g(*idx):
            base = []
            for ax in axes:
                if ax[0] == "f":
                    base.append(ax[1])
                else:
                    _, j, start, step = ax
                    base.append(T.add(start, T.mul(step, idx[j])))
            return f(*base)
        return g

    def arr_dtype(self, a):
        return self.st.heap[a.cid].dtype

    def arr_write(self, a, cond, val):
        """write through view a: for every view index idx with cond(idx): a[idx] = val(idx)"""
        cell = self.st.heap[a.cid]
        if cell.frozen:
            raise Unsupported("write to an array that may be aliased")
        old, dt = cell.fn, cell.dtype
        if a.axes is None:
            def fn(*idx):
                c = cond(*idx)
                if c is False:
                    return old(*idx)
                v = T.cast(val(*idx), dt)
                if c is True:
                    return v
                return ite(c, v, old(*idx))
        else:
            axes, nv = a.axes, len(a.shape)

            def fn(*base):
                cs, vidx = [], [0] * nv
                for b, ax in zip(base, axes):
                    if ax[0] == "f":
                        cs.append(eq(b, ax[1]))
                    else:
                        _, j, start, step = ax
                        if step == 1:
                            v = T.sub(b, start)
                        elif step == -1:
                            v = T.sub(start, b)
                        else:
                            d = T.sub(b, start)
                            v = T.floordiv(d, step)
                            cs.append(eq(T.mod(d, step), 0))
                        cs.append(le(0, v))
                        cs.append(lt(v, a.shape[j]))
                        vidx[j] = v
                g = and_(*cs)
                if g is False:
                    return old(*base)
                c = and_(g, cond(*vidx))
                if c is False:
                    return old(*base)
                v = T.cast(val(*vidx), dt)
                if c is True:
                    return v
                return ite(c, v, old(*base))
        self.st.heap[a.cid] = ArrCell(cell.shape, dt, fn)

    # ================= facts, branching =================
    def assume(self, f, tag=""):
        """assume a fact in the current state; inside a summarised loop it is exported for every iteration"""
        if f is True:
            return
        self.st.pc.append(f)
        if self.ctx.loopstack:
            guard = and_(*self.st.pc[self.loop_pc_base:-1]) if hasattr(self, "loop_pc_base") else and_(*self.st.pc[:-1])
            self.ctx.assume_forall(list(self.ctx.loopstack), implies(guard, f), tag)

    def valid(self, goal, light=False):
        if isinstance(goal, bool):
            return goal
        goal = T.simp(goal)
        if isinstance(goal, bool):
            return goal
        key = (goal.get_id(), tuple(p.get_id() if is_z3(p) else p for p in self.st.pc), light, len(self.ctx.lfacts))
        r = self.valid_cache.get(key)
        if r is None:
            v = self.ctx.valid_light(self.st.pc, goal)
            if not v and not light:
                v = self.ctx.valid(self.st.pc, goal, rounds=2, timeout=1500)
            r = (v, goal)
            self.valid_cache[key] = r
        return r[0]

    def decide(self, cond):
        """branch on cond inside an expression (forks the enclosing statement)"""
        cond = T.simp(cond) if is_z3(cond) else cond
        if isinstance(cond, bool):
            return cond
        i = self.choose([cond, not_(cond)])
        return i == 0

    def choose(self, conds):
        if self.script is None:
            raise Unsupported("fork outside a statement")
        if self.pos < len(self.script):
            i = self.script[self.pos]
            self.pos += 1
            self.st.pc.append(conds[i])
            return i
        feas = [i for i, c in enumerate(conds) if c is True or (c is not False and self.ctx.sat_light(self.st.pc + [c]))]
        if not feas:
            feas = [0]
        if len(feas) == 1:
            self.script.append(feas[0])
            self.pos += 1
            if conds[feas[0]] is not True:
                self.st.pc.append(conds[feas[0]])
            return feas[0]
        raise NeedFork(feas)

    def oblige(self, name, goal):
        """safety obligation: must hold here; afterwards it may be assumed"""
        if goal is True:
            return
        goal = T.simp(goal)
        if goal is True:
            return
        if self.in_try:
            return
        fn = self.frames[-1].qual if self.frames else ""
        self.ctx.prove(f"{fn}: {name}", self.st.pc, goal)
        if not isinstance(goal, bool):
            self.st.pc.append(goal)

    def raise_(self, cls, *args):
        e = ExcV(cls, args)
        e.where = f"{self.frames[-1].qual if self.frames else ''}:{getattr(self, 'line', 0)}"
        raise PyRaise(e)

    # ================= merging =================
    def merge_outs(self, outs, base_len):
        """merge states of outcomes that share kind; returns single outcome or raises NoMerge.
        base_len: length of the common pc prefix"""
        cur = outs[0]
        for o in outs[1:]:
            cur = self.merge2(cur, o, base_len)
        return cur

    def merge2(self, a, b, base_len):
        ca = and_(*a.st.pc[base_len:])
        cb = and_(*b.st.pc[base_len:])
        c = ca
        # drop what both share
        k = base_len
        while k < len(a.st.pc) and k < len(b.st.pc) and a.st.pc[k] is b.st.pc[k]:
            k += 1
        c = and_(*a.st.pc[k:])
        d = and_(*b.st.pc[k:])
        if c is True and d is True:
            raise NoMerge()
        # guard choosing a: prefer the first differing condition (branch condition)
        g = c
        if k < len(a.st.pc) and k < len(b.st.pc):
            x, y = a.st.pc[k], b.st.pc[k]
            if is_z3(x) and is_z3(y) and same_val(T.simp(not_(x)), T.simp(y)):
                g = x
        if g is True:
            g = not_(d)
        st = State(None, None, list(a.st.pc[:k]), max(a.st.ch, b.st.ch))
        disj = T.simp(or_(c, d)) if is_z3(or_(c, d)) else or_(c, d)
        if g is not c or True:
            # implied facts of each side stay available under the guard
            for f in a.st.pc[k:]:
                t = implies(g, f)
                if t is not True and not (is_z3(t) and z3.is_true(z3.simplify(t))):
                    st.pc.append(t)
            for f in b.st.pc[k:]:
                t = implies(not_(g), f)
                if t is not True and not (is_z3(t) and z3.is_true(z3.simplify(t))):
                    st.pc.append(t)
        heap = dict(a.st.heap)
        for cid, cb_ in b.st.heap.items():
            ca_ = a.st.heap.get(cid)
            if ca_ is None:
                heap[cid] = cb_
            elif ca_ is not cb_:
                heap[cid] = self.merge_cell(g, ca_, cb_)
        st.heap = heap
        loc = {}
        for nm in set(a.st.loc) | set(b.st.loc):
            va, vb = a.st.loc.get(nm, UNDEF), b.st.loc.get(nm, UNDEF)
            if va is vb or same_val(va, vb):
                loc[nm] = va
            elif nm.startswith("$t"):
                continue            # temporaries do not live across statements
            else:
                own = isinstance(va, Arr) and isinstance(vb, Arr) and self.private(va, a.st, nm) and self.private(vb, b.st, nm)
                loc[nm] = self.merge_v(g, va, vb, st, own)
        st.loc = loc
        val = None
        if a.val is not None or b.val is not None:
            val = self.merge_v(g, a.val, b.val, st)
        return Outcome(st, a.kind, val)

    def private(self, v, st, nm):
        """array created in the current call and referred to by the local variable nm only"""
        if v.axes is not None or v.cid <= self.frame_base:
            return False
        stack = [x for k, x in st.loc.items() if k != nm and not k.startswith("$t")]
        k0 = z3.Int("probe_k")
        try:
            for c in st.heap.values():
                if isinstance(c, ObjCell):
                    stack += list(c.fields.values())
                elif isinstance(c, ListCell):
                    stack += c.items if c.items is not None else [c.at(k0)]
                elif isinstance(c, DictCell):
                    if c.fam is not None:
                        return False
                    stack += [x for kv in c.items for x in kv]
                elif isinstance(c, FamCell):
                    for f in c.fields.values():
                        if f[0] == "v":
                            stack.append(f[1])
                        elif f[0] == "o":
                            stack.append(f[1](k0))
                        elif v.cid in f[1:]:
                            return False
        except Unsupported:
            return False
        while stack:
            x = stack.pop()
            if isinstance(x, Arr):
                if x.cid == v.cid:
                    return False
            elif isinstance(x, tuple):
                stack += x
            elif isinstance(x, Case):
                stack += [y for _, y in x.alts]
            elif isinstance(x, (int, bool, str, type(None), float, T.XF, ListRef, DictRef, ObjRef, FamRef)) or is_z3(x):
                pass
            elif type(x).__name__ in ("Fraction", "FuncV", "ClassV", "LibV", "_Undef", "DTypeV", "RangeV", "ModV", "Opaque"):
                pass
            elif x is UNDEF:
                pass
            else:
                return False
        return True

    def merge_v(self, c, a, b, st, own=False):
        if a is b or same_val(a, b):
            return a
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape):
            sv = self.st
            self.st = st
            try:
                if all(T.same(x, y) or self.valid(eq(x, y)) for x, y in zip(a.shape, b.shape)):
                    fa, fb = self.arr_fn(a), self.arr_fn(b)
                    dta, dtb = self.arr_dtype(a), self.arr_dtype(b)
                    dt = dta if dta == dtb else "float"
                    self.ncid += 1
                    st.heap[self.ncid] = ArrCell(a.shape, dt, lambda *i: ite(c, fa(*i), fb(*i)), frozen=not own)
                    return Arr(self.ncid, a.shape)
            finally:
                self.st = sv
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_v(c, x, y, st) for x, y in zip(a, b))
        if isinstance(a, ListRef) and isinstance(b, ListRef):
            try:
                m = self.merge_cell(c, st.heap[a.cid], st.heap[b.cid])
                self.ncid += 1
                st.heap[self.ncid] = m
                return ListRef(self.ncid)      # joined copy (reads only; identity is not preserved)
            except NoMerge:
                pass
        return merge_val(c, a, b)

    def merge_cell(self, c, a, b):
        if type(a) != type(b):
            raise NoMerge()
        if isinstance(a, ArrCell):
            if len(a.shape) != len(b.shape) or not all(T.same(x, y) for x, y in zip(a.shape, b.shape)):
                raise NoMerge()
            fa, fb = a.fn, b.fn
            return ArrCell(a.shape, a.dtype if a.dtype == b.dtype else "float", lambda *i: ite(c, fa(*i), fb(*i)),
                           a.frozen or b.frozen)
        if isinstance(a, ListCell):
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return ListCell([merge_val(c, x, y) for x, y in zip(a.items, b.items)], kind=a.kind)
            na, nb = a.length(), b.length()

            def fn(k):
                out = lambda x: x.items is not None and (not x.items or isinstance(k, int) and k >= len(x.items))
                va = None if out(a) else a.at(k)
                vb = None if out(b) else b.at(k)
                if va is None:
                    return vb
                if vb is None:
                    return va
                return merge_val(c, va, vb)
            return ListCell(None, ite(c, na, nb), fn, a.kind)
        if isinstance(a, ObjCell):
            if a.cls is not b.cls:
                raise NoMerge()
            f = {}
            for nm in set(a.fields) | set(b.fields):
                f[nm] = merge_val(c, a.fields.get(nm, UNDEF), b.fields.get(nm, UNDEF))
            return ObjCell(a.cls, f)
        if isinstance(a, DictCell):
            ka, kb = [k for k, _ in a.items], [k for k, _ in b.items]
            if len(ka) == len(kb) and all(same_val(x, y) for x, y in zip(ka, kb)) and a.fam is b.fam:
                return DictCell([(k, merge_val(c, x, y)) for (k, x), (_, y) in zip(a.items, b.items)], a.fam)
            raise NoMerge()
        if isinstance(a, FamCell):
            if a.n is b.n and set(a.fields) == set(b.fields) and all(a.fields[k] == b.fields[k] for k in a.fields):
                return a
            raise NoMerge()
        raise NoMerge()

    def join(self, outs, base_len):
        """merge outcomes kind by kind where possible"""
        res = []
        for kind in ("normal", "return", "continue", "break"):
            g = [o for o in outs if o.kind == kind]
            if len(g) <= 1:
                res += g
                continue
            acc = [g[0]]
            for o in g[1:]:
                for i, p in enumerate(acc):
                    try:
                        acc[i] = self.merge2(p, o, base_len)
                        break
                    except NoMerge:
                        continue
                else:
                    acc.append(o)
            res += acc
        res += [o for o in outs if o.kind == "raise"]
        return res

    # ================= statements =================
    def block(self, st, stmts):
        """execute statements from st; list of outcomes"""
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in cur:
                for o in self.stmt(x, s):
                    if o.kind == "normal":
                        nxt.append(o.st)
                    else:
                        done.append(o)
            cur = nxt
            if not cur:
                break
            if len(cur) > 64:
                raise Unsupported("too many paths")
        return done + [Outcome(x, "normal") for x in cur]

    def stmt(self, st, s):
        work = [[]]
        outs = []
        saved = (self.st, self.script, self.pos)
        base = len(st.pc)
        while work:
            script = work.pop()
            self.st = st.clone()
            self.script, self.pos = script, 0
            try:
                r = self.exec1(s)
            except NeedFork as f:
                for i in reversed(f.n):
                    work.append(self.script[:self.pos] + [i])
                if len(work) > 200:
                    raise Unsupported("too many forks")
                continue
            except PyRaise as e:
                r = [Outcome(self.st, "raise", e.exc)]
            outs += r
        self.st, self.script, self.pos = saved
        if len(outs) > 1:
            outs = self.join(outs, base)
        return outs

    def exec1(self, s):
        if hasattr(s, "lineno"):
            self.line = s.lineno
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s)

    def ok(self):
        return [Outcome(self.st, "normal")]

    def x_Pass(self, s):
        return self.ok()

    def x_Global(self, s):
        raise Unsupported("global statement")

    def x_Import(self, s):
        for a in s.names:
            self.st.loc[a.asname or a.name.split(".")[0]] = ModV(a.name if a.asname else a.name.split(".")[0])
        return self.ok()

    def x_ImportFrom(self, s):
        m = self.frames[-1].module
        base = s.module or ""
        if s.level:
            parts = m.name.split(".")[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            if base.startswith(self.package):
                v = self.mod_lookup(self.load(base), a.name)
                if v is None:
                    raise Unsupported("import")
            else:
                v = LibV(base + "." + a.name)
            self.st.loc[a.asname or a.name] = v
        return self.ok()

    def x_FunctionDef(self, s):
        self.st.loc[s.name] = FuncV(s, self.frames[-1].module, self.frames[-1].cls, closure=self.st)
        return self.ok()

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return self.ok()
        if isinstance(s.value, ast.Call):
            outs = self.call_stmt(s.value)
            return [Outcome(o.st, "normal") if o.kind == "value" else o for o in outs]
        self.ev(s.value)
        return self.ok()

    def x_Return(self, s):
        if s.value is None:
            return [Outcome(self.st, "return", None)]
        if isinstance(s.value, ast.Call):
            outs = self.call_stmt(s.value)
            return [Outcome(o.st, "return", o.val) if o.kind == "value" else o for o in outs]
        v = self.ev(s.value)
        return [Outcome(self.st, "return", v)]

    def x_Assign(self, s):
        if isinstance(s.value, ast.Call):
            outs = self.call_stmt(s.value)
            res = []
            for o in outs:
                if o.kind != "value":
                    res.append(o)
                    continue
                self.st = o.st
                try:
                    r = [Outcome(self.st, "normal")]
                    for t in s.targets:
                        r2 = []
                        for q in r:
                            self.st = q.st
                            if q.kind == "normal":
                                r2 += self.assign_outs(t, o.val)
                            else:
                                r2.append(q)
                        r = r2
                    res += r
                except PyRaise as e:
                    res.append(Outcome(self.st, "raise", e.exc))
            return res
        v = self.ev(s.value)
        r = [Outcome(self.st, "normal")]
        for t in s.targets:
            r2 = []
            for q in r:
                if q.kind != "normal":
                    r2.append(q)
                    continue
                self.st = q.st
                r2 += self.assign_outs(t, v)
            r = r2
        return r

    def assign_outs(self, t, v):
        """assignment that may run a property setter with several outcomes"""
        if isinstance(t, ast.Attribute):
            obj = self.ev(t.value)
            return self.setattr_outs(obj, self.mangle(t.attr), v)
        self.assign(t, v)
        return [Outcome(self.st, "normal")]

    def setattr_outs(self, obj, name, v):
        obj = self.resolve(obj)
        cls = None
        if isinstance(obj, (ObjRef, FamRef)):
            cls = self.st.heap[obj.cid].cls
        if cls is not None:
            mem = cls.lookup(name)
            if isinstance(mem, PropV):
                if mem.fset is None:
                    self.raise_("AttributeError")
                outs = self.call_fn(mem.fset, [obj, v], {})
                return [Outcome(o.st, "normal") if o.kind == "value" else o for o in outs]
        self.set_field(obj, name, v)
        return [Outcome(self.st, "normal")]

    def set_field(self, obj, name, v):
        if isinstance(obj, ObjRef):
            c = self.st.heap[obj.cid]
            f = dict(c.fields)
            f[name] = v
            self.st.heap[obj.cid] = ObjCell(c.cls, f)
        elif isinstance(obj, FamRef):
            self.set_fam(obj, name, v)
        elif isinstance(obj, Opaque):
            pass
        else:
            raise Unsupported(f"attribute assignment on {type(obj).__name__}")

    def set_fam(self, obj, name, v):
        c = self.st.heap[obj.cid]
        fd = c.fields.get(name)
        if fd is None:
            raise Unsupported(f"new attribute {name} on a member of an object family")
        k = fd[0]
        idx = obj.idx
        if k == "s":
            if not T.is_scalar(v):
                raise Unsupported(f"family field {name} set to a non scalar")
            self.arr_write(Arr(fd[1], self.st.heap[fd[1]].shape), lambda i: eq(i, idx), lambda i: v)
        elif k == "l":
            if not isinstance(v, ListRef):
                raise Unsupported(f"family list field {name}")
            lc = self.st.heap[v.cid]
            n = lc.length()
            self.arr_write(Arr(fd[1], self.st.heap[fd[1]].shape), lambda i: eq(i, idx), lambda i: n)
            if not (lc.items is not None and not lc.items):
                self.arr_write(Arr(fd[2], self.st.heap[fd[2]].shape), lambda i, j: and_(eq(i, idx), lt(j, n)),
                               lambda i, j: lc.at(j))
        elif k == "d":      # don't care field
            pass
        elif k == "a" and isinstance(v, Arr):
            if same_val(v, self.get_fam(obj, name)):
                return          # in-place update of the member's own array
            cell = self.st.heap[fd[1]]
            if v.ndim != len(cell.shape) - 1:
                raise Unsupported(f"family field {name} changes dimension")
            self.oblige(f"length of {name} unchanged", and_(*[eq(a, b) for a, b in zip(v.shape, cell.shape[1:])]))
            f = self.arr_fn(v)
            self.arr_write(Arr(fd[1], cell.shape), lambda i, *r: eq(i, idx), lambda i, *r: f(*r))
        else:
            raise Unsupported(f"family field {name} is not assignable")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.st.loc[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), [isinstance(e, ast.Starred) for e in t.elts])
            for e, x in zip(t.elts, vs):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
        elif isinstance(t, ast.Attribute):
            outs = self.assign_outs(t, v)
            self.take(outs)
        elif isinstance(t, ast.Subscript):
            obj = self.resolve(self.ev(t.value))
            self.setitem(obj, self.ev_index(t.slice), v)
        else:
            raise Unsupported("assignment target")

    def take(self, outs):
        """continue in one of several outcomes (fork)"""
        outs = [o for o in outs]
        if len(outs) == 1:
            o = outs[0]
            self.st = o.st
        else:
            base = len(self.st.pc)
            # choose by index; the chosen state already carries its conditions
            if self.pos < len(self.script):
                i = self.script[self.pos]
                self.pos += 1
            else:
                raise NeedFork(list(range(len(outs))))
            o = outs[i]
            self.st = o.st
        if o.kind == "raise":
            raise PyRaise(o.val)
        return o.val

    def unpack(self, v, n, starred):
        v = self.resolve(v)
        items = self.concrete_items(v)
        if items is None:
            k = self.length(v)
            if any(starred):
                raise Unsupported("starred unpacking of a symbolic sequence")
            if not self.valid(eq(k, n)):
                self.oblige(f"unpack {n} values", eq(k, n))
            return [self.iter_at(v, i) for i in range(n)]
        if any(starred):
            i = starred.index(True)
            m = len(items) - (n - 1)
            return items[:i] + [self.new_list(items[i:i + m])] + items[i + m:]
        if len(items) != n:
            self.raise_("ValueError")
        return items

    def x_AugAssign(self, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t))
            v = self.ev(s.value)
            self.st.loc[t.id] = self.inplace(op, cur, v)
            return self.ok()
        if isinstance(t, ast.Attribute):
            obj = self.ev(t.value)
            cur = self.getattr(obj, self.mangle(t.attr))
            v = self.ev(s.value)
            r = self.inplace(op, cur, v)
            return self.setattr_outs(obj, self.mangle(t.attr), r)
        if isinstance(t, ast.Subscript):
            obj = self.resolve(self.ev(t.value))
            idx = self.ev_index(t.slice)
            cur = self.getitem(obj, idx)
            v = self.ev(s.value)
            r = self.binop(op, cur, v)
            self.setitem(obj, idx, r)
            return self.ok()
        raise Unsupported("augmented assignment")

    def inplace(self, op, cur, v):
        cur = self.resolve(cur)
        if isinstance(cur, Arr):
            r = self.binop(op, cur, v)
            if isinstance(r, Arr):
                if len(r.shape) != len(cur.shape):
                    raise Unsupported("in-place broadcast")
                f = self.arr_fn(r)
            else:
                f = lambda *i: r
            if self.arr_dtype(cur) in ("int", "bool") and isinstance(r, Arr) and self.arr_dtype(r) == "float":
                self.raise_("TypeError")
            self.arr_write(cur, lambda *i: True, f)
            return cur
        if isinstance(cur, ListRef) and op == "Add":
            c = self.st.heap[cur.cid]
            vi = self.concrete_items(self.resolve(v))
            if c.items is not None and vi is not None:
                self.st.heap[cur.cid] = ListCell(c.items + list(vi), kind=c.kind)
                return cur
            n0, n1 = c.length(), self.length(v)
            vv = self.resolve(v)
            at1 = lambda k: self.iter_at(vv, k)
            self.st.heap[cur.cid] = ListCell(None, T.add(n0, n1), lambda k: merge_val(lt(k, n0), c.at(k), at1(T.sub(k, n0)))
                                             if not (c.items is not None and not c.items) else at1(k), c.kind)
            return cur
        return self.binop(op, cur, v)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.loc[t.id] = UNDEF
            else:
                raise Unsupported("del")
        return self.ok()

    def x_If(self, s):
        base = len(self.st.pc)
        c = self.truth(self.ev(s.test))
        c = T.simp(c) if is_z3(c) else c
        if isinstance(c, bool):
            return self.block(self.st, s.body if c else s.orelse) if (s.body if c else s.orelse) else self.ok()
        self.symbolic_branches += 1
        st0 = self.st
        outs = []
        for cond, body in ((c, s.body), (not_(c), s.orelse)):
            st = st0.clone()
            if not self.ctx.sat_light(st.pc + [cond]):
                continue
            st.pc.append(cond)
            outs += self.block(st, body) if body else [Outcome(st, "normal")]
        return self.join(outs, base)

    def x_Assert(self, s):
        c = self.truth(self.ev(s.test))
        c = T.simp(c) if is_z3(c) else c
        if c is True:
            return self.ok()
        if c is False:
            self.raise_("AssertionError")
        if self.valid(c):
            self.st.pc.append(c)
            return self.ok()
        st0 = self.st
        a, b = st0.clone(), st0.clone()
        a.pc.append(c)
        b.pc.append(not_(c))
        return [Outcome(a, "normal"), Outcome(b, "raise", ExcV("AssertionError"))]

    def x_Raise(self, s):
        if s.exc is None:
            e = self.st.loc.get("$exc")
            return [Outcome(self.st, "raise", e or ExcV("RuntimeError"))]
        e = s.exc
        if isinstance(e, ast.Call):
            f = self.ev(e.func)
            # message arguments: only checked for format arity errors
            for a in e.args:
                try:
                    self.msg_check(a)
                except Unsupported:
                    pass
        else:
            f = self.ev(e)
        if isinstance(f, ExcV):
            return [Outcome(self.st, "raise", f)]
        if isinstance(f, LibV) and f.path.startswith("exc."):
            ev = ExcV(f.path[4:])
            ev.where = f"{self.frames[-1].qual}:{s.lineno}"
            return [Outcome(self.st, "raise", ev)]
        if isinstance(f, ClassV):
            return [Outcome(self.st, "raise", ExcV(f.name, (f,)))]
        return [Outcome(self.st, "raise", ExcV("Exception"))]

    def msg_check(self, node):
        """'...{1}...'.format(x) with too few arguments raises IndexError"""
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "format":
            v = node.func.value
            parts = []
            try:
                parts = ast.literal_eval(v)
            except Exception:
                return
            self.format_check(parts, len(node.args), [k.arg for k in node.keywords])

    def format_check(self, text, nargs, kws):
        import string
        auto = 0
        try:
            for _, field, _, _ in string.Formatter().parse(text):
                if field is None:
                    continue
                nm = field.split(".")[0].split("[")[0]
                if nm == "":
                    i = auto
                    auto += 1
                elif nm.isdigit():
                    i = int(nm)
                else:
                    if nm not in kws:
                        self.raise_("KeyError")
                    continue
                if i >= nargs:
                    self.raise_("IndexError")
        except ValueError:
            self.raise_("ValueError")

    def x_Try(self, s):
        st0 = self.st
        base = len(st0.pc)
        self.in_try += 1 if s.handlers else 0
        try:
            outs = self.block(st0.clone(), s.body)
        finally:
            self.in_try -= 1 if s.handlers else 0
        res = []
        for o in outs:
            if o.kind == "raise":
                handled = False
                for h in s.handlers:
                    if h.type is None or self.exc_match(o.val, h.type):
                        st = o.st
                        if h.name:
                            st.loc[h.name] = o.val
                        st.loc["$exc"] = o.val
                        res += self.block(st, h.body)
                        handled = True
                        break
                if not handled:
                    res.append(o)
            elif o.kind == "normal" and s.orelse:
                res += self.block(o.st, s.orelse)
            else:
                res.append(o)
        if s.finalbody:
            r2 = []
            for o in res:
                for q in self.block(o.st, s.finalbody):
                    r2.append(Outcome(q.st, o.kind, o.val) if q.kind == "normal" else q)
            res = r2
        return self.join(res, base)

    def exc_match(self, exc, tnode):
        t = self.ev(tnode)
        ts = list(t) if isinstance(t, tuple) else [t]
        for t in ts:
            if isinstance(t, LibV) and t.path.startswith("exc."):
                want = t.path[4:]
                c = exc.cls
                if exc.args and isinstance(exc.args[0], ClassV):
                    if want in ("Exception", "BaseException"):
                        return True
                while c is not None:
                    if c == want:
                        return True
                    c = BUILTIN_EXC.get(c)
            elif isinstance(t, ClassV) and exc.cls == t.name:
                return True
        return False

    def x_With(self, s):
        for it in s.items:
            self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, Opaque("with"))
        return self.block(self.st, s.body)

    def x_Break(self, s):
        return [Outcome(self.st, "break")]

    def x_Continue(self, s):
        return [Outcome(self.st, "continue")]

    def x_LoopBind(self, s):
        s.fn(self)
        return self.ok()

    def x_For(self, s):
        from . import loops
        return loops.for_stmt(self, s)

    def x_While(self, s):
        from . import loops
        return loops.while_stmt(self, s)

    # ================= expressions =================
    def mangle(self, name, cls=None):
        cls = cls or (self.frames[-1].cls if self.frames else None)
        if cls is not None and name.startswith("__") and not name.endswith("__"):
            return "_" + cls.name.lstrip("_") + name
        return name

    def resolve(self, v):
        """fork guarded unions; reject undefined / poisoned values"""
        while isinstance(v, Case):
            i = self.choose([g for g, _ in v.alts])
            v = v.alts[i][1]
        if isinstance(v, Poison):
            raise PoisonRead(v.key)
        if v is UNDEF:
            self.raise_("UnboundLocalError")
        return v

    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            return T.norm(v)
        if v is Ellipsis:
            return Ellipsis
        return v

    def e_Name(self, e):
        v = self.lookup(e.id)
        if isinstance(v, Case) and any(x is UNDEF for _, x in v.alts):
            good = [(g, x) for g, x in v.alts if x is not UNDEF]
            if self.valid(or_(*[g for g, _ in good])):
                v = good[0][1] if len(good) == 1 else Case(good)
                if len(good) > 1 and all(T.is_scalar(x) for _, x in good):
                    w = good[-1][1]
                    for g, x in reversed(good[:-1]):
                        w = ite(g, x, w)
                    v = w
                return v
            return self.resolve(v)
        if isinstance(v, Poison):
            raise PoisonRead(v.key)
        if v is UNDEF:
            self.raise_("UnboundLocalError")
        return v

    def lookup(self, name):
        if name in self.st.loc:
            return self.st.loc[name]
        fr = self.frames[-1]
        cl = fr.closure
        while cl is not None:
            if isinstance(cl, State):
                if name in cl.loc:
                    return cl.loc[name]
                cl = None
            else:
                d, cl = cl
                if name in d:
                    return d[name]
        v = self.mod_lookup(fr.module, name) if fr.module else None
        if v is not None:
            return v
        if name in BUILTIN_EXC:
            return LibV("exc." + name)
        if name in BUILTIN_FN:
            return LibV("builtins." + name)
        if name in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[name]
        # a local assigned on some other path, or a genuinely undefined name
        self.raise_("NameError")

    def e_Tuple(self, e):
        return tuple(self.ev_star(e.elts))

    def e_List(self, e):
        return self.new_list(self.ev_star(e.elts))

    def ev_star(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                items = self.concrete_items(self.resolve(self.ev(x.value)))
                if items is None:
                    raise Unsupported("starred symbolic sequence")
                out += items
            else:
                out.append(self.ev(x))
        return out

    def e_Set(self, e):
        return self.new_list(self.ev_star(e.elts), kind="set")

    def e_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.resolve(self.ev(v))
                if not isinstance(d, DictRef):
                    raise Unsupported("dict unpacking")
                c = self.st.heap[d.cid]
                if c.fam is not None:
                    if items or len(e.keys) > 1 and c.fam:
                        raise Unsupported("dict unpacking of a symbolic dict")
                for kk, vv in c.items:
                    self.dict_put(items, kk, vv)
            else:
                self.dict_put(items, self.ev(k), self.ev(v))
        return DictRef(self.alloc(DictCell(items)))

    def dict_put(self, items, k, v):
        for i, (kk, _) in enumerate(items):
            c = self.key_eq(kk, k)
            if c is False:
                continue
            if c is True or self.valid(c):
                items[i] = (kk, v)
                return
            if not self.valid(not_(c)):
                raise Unsupported("symbolic dictionary key")
        items.append((k, v))

    def key_eq(self, a, b):
        """True/False/term"""
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if T.is_scalar(a) and T.is_scalar(b):
            return eq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return and_(*[self.key_eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, (ObjRef, ListRef)) and type(a) == type(b):
            return a.cid == b.cid
        if isinstance(a, FamRef) and isinstance(b, FamRef):
            return eq(a.idx, b.idx) if a.cid == b.cid else False
        if type(a) != type(b):
            return False
        if a is b:
            return True
        raise Unsupported("dictionary key comparison")

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0])
        for x in e.values[1:]:
            t = self.truth(v)
            t = T.simp(t) if is_z3(t) else t
            if isinstance(t, bool):
                if t != isand:
                    return v
                v = self.ev(x)
                continue
            # symbolic: evaluate the rest under the guard
            n0 = len(self.st.pc)
            guard = t if isand else not_(t)
            if not self.ctx.sat_light(self.st.pc + [guard]):
                return v
            h0, pos0 = dict(self.st.heap), self.pos
            self.st.pc.append(guard)
            st = self.st
            w = self.ev(x)
            w = self.truth(w)
            if self.st is not st:
                raise Unsupported("effects in a symbolic boolean operand")
            extra = self.st.pc[n0 + 1:]
            del self.st.pc[n0:]
            for f in extra:
                self.st.pc.append(implies(guard, f))
            v = and_(t, w) if isand else or_(t, w)
        return v

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        c = T.simp(c) if is_z3(c) else c
        if isinstance(c, bool):
            return self.ev(e.body if c else e.orelse)
        if not self.ctx.sat_light(self.st.pc + [c]):
            return self.ev(e.orelse)
        if not self.ctx.sat_light(self.st.pc + [not_(c)]):
            return self.ev(e.body)
        vals = []
        for g, x in ((c, e.body), (not_(c), e.orelse)):
            n0 = len(self.st.pc)
            self.st.pc.append(g)
            vals.append(self.ev(x))
            extra = self.st.pc[n0 + 1:]
            del self.st.pc[n0:]
            for f in extra:
                self.st.pc.append(implies(g, f))
        return self.merge_v(c, vals[0], vals[1], self.st)

    def e_UnaryOp(self, e):
        v = self.resolve(self.ev(e.operand))
        op = type(e.op).__name__
        if op == "Not":
            return not_(self.truth(v))
        if op == "USub":
            return self.map1(v, T.neg, None)
        if op == "UAdd":
            return v
        if op == "Invert":
            def inv(x):
                if T.is_bool(x):
                    return not_(x)
                return T.sub(T.neg(x), 1)
            if T.is_bool(v) and not is_z3(v):
                return -int(v) - 1
            return self.map1(v, inv, None)
        raise Unsupported(op)

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def e_Compare(self, e):
        l = self.ev(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r)
            c = self.compare(type(op).__name__, l, rv)
            res = c if res is None else and_(self.truth(res), self.truth(c))
            l = rv
        return res

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            a0 = a
            if isinstance(a, Case) or isinstance(b, Case):
                a, b = self.resolve(a), self.resolve(b)
            r = self.is_same(a, b)
            return r if op == "Is" else not_(r)
        a, b = self.resolve(a), self.resolve(b)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else not_(r)
        fs = {"Eq": T.eq, "NotEq": T.ne, "Lt": T.lt, "LtE": T.le, "Gt": T.gt, "GtE": T.ge}
        f = fs[op]
        if isinstance(a, Arr) or isinstance(b, Arr):
            if not (isinstance(a, Arr) or T.is_scalar(a) or isinstance(a, (ListRef, tuple))) or \
               not (isinstance(b, Arr) or T.is_scalar(b) or isinstance(b, (ListRef, tuple))):
                if op == "Eq":
                    return False
                if op == "NotEq":
                    return True
            return self.map2(a, b, f, "bool")
        if T.is_scalar(a) and T.is_scalar(b):
            return f(a, b)
        if isinstance(a, str) and isinstance(b, str):
            return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if op in ("Eq", "NotEq"):
            r = self.val_eq(a, b)
            return r if op == "Eq" else not_(r)
        raise Unsupported(f"comparison {op} of {type(a).__name__} and {type(b).__name__}")

    def val_eq(self, a, b):
        if isinstance(a, (tuple, ListRef)) and isinstance(b, (tuple, ListRef)):
            if isinstance(a, tuple) != isinstance(b, tuple) and not (
                    isinstance(a, ListRef) and self.st.heap[a.cid].kind == "tuple" or
                    isinstance(b, ListRef) and self.st.heap[b.cid].kind == "tuple"):
                return False
            ia, ib = self.concrete_items(a), self.concrete_items(b)
            if ia is not None and ib is not None:
                if len(ia) != len(ib):
                    return False
                return and_(*[self.truth(self.compare("Eq", x, y)) for x, y in zip(ia, ib)])
            na, nb = self.length(a), self.length(b)
            k = z3.Int(self.ctx.name("eqk"))
            body = and_(le(0, k), lt(k, na), not_(self.truth(self.compare("Eq", self.iter_at(a, k), self.iter_at(b, k)))))
            app = self.ctx.reduction("any", [], [k], zb_(body), [na])
            return and_(eq(na, nb), not_(app()))
        if a is None or b is None:
            return a is b
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("comparison of an opaque value")
        if isinstance(a, (ObjRef, FamRef)) and isinstance(b, (ObjRef, FamRef)):
            return self.is_same(a, b)
        if isinstance(a, DTypeV) and isinstance(b, DTypeV):
            return a.dt == b.dt
        if isinstance(a, (ClassV, LibV, FuncV)) and isinstance(b, (ClassV, LibV, FuncV)):
            return same_val(a, b)
        if isinstance(a, RangeV) and isinstance(b, RangeV):
            return same_val(a, b)
        if type(a) != type(b):
            if isinstance(a, str) or isinstance(b, str):
                return False
            if isinstance(a, (tuple, ListRef, DictRef)) or isinstance(b, (tuple, ListRef, DictRef)):
                return False
        if isinstance(a, DictRef) and isinstance(b, DictRef):
            ca, cb = self.st.heap[a.cid], self.st.heap[b.cid]
            if ca.fam is None and cb.fam is None and len(ca.items) != len(cb.items):
                return False
        raise Unsupported(f"equality of {type(a).__name__} and {type(b).__name__}")

    def is_same(self, a, b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            if a is b:
                return True
            if is_z3(a) and z3.is_bool(a) and isinstance(b, bool):
                return eq(a, b)
            return False
        if isinstance(a, FamRef) and isinstance(b, FamRef):
            return eq(a.idx, b.idx) if a.cid == b.cid else False
        if isinstance(a, (Arr, ListRef, DictRef, ObjRef)):
            return type(a) == type(b) and a.cid == b.cid
        if same_val(a, b):
            return True
        if type(a) != type(b):
            return False
        raise Unsupported("identity test")

    def contains(self, c, x):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, DictRef):
            d = self.st.heap[c.cid]
            r = [self.key_eq(k, x) for k, _ in d.items]
            if d.fam is not None:
                r.append(d.fam.has(self, x))
            return or_(*r) if r else False
        if isinstance(c, MethV):
            raise Unsupported("membership")
        if isinstance(c, RangeV) and T.is_scalar(x) and c.step == 1:
            return and_(T.le(c.start, x), T.lt(x, c.stop))
        items = self.concrete_items(c)
        if items is not None:
            return or_(*[self.truth(self.compare("Eq", i, x)) for i in items]) if items else False
        if isinstance(c, Opaque):
            raise Unsupported("membership in an opaque value")
        if isinstance(c, Arr):
            e = self.map2(c, x, T.eq, "bool")
            return self.lib["numpy.any"](self, [e], {})
        n = self.length(c)
        k = z3.Int(self.ctx.name("ink"))
        el = self.iter_at(c, k)
        body = self.truth(self.compare("Eq", el, x))
        if isinstance(body, bool):
            return and_(body, T.lt(0, n))
        return self.ctx.reduction("any", [], [k], body, [n])()

    def truth(self, v):
        v = self.resolve(v)
        if v is None:
            return False
        if T.is_scalar(v):
            return T.truthy(v)
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, ListRef):
            return T.lt(0, self.st.heap[v.cid].length())
        if isinstance(v, DictRef):
            d = self.st.heap[v.cid]
            if d.fam is not None:
                return T.lt(0, T.add(len(d.items), d.fam.n))
            return len(d.items) > 0
        if isinstance(v, RangeV):
            return T.lt(0, v.length())
        if isinstance(v, Arr):
            # a one-element array
            for d in v.shape:
                if not self.valid(eq(d, 1)):
                    n = self.size(v)
                    if n == 1:
                        break
                    # numpy: ambiguous truth value (size > 1) or deprecated False (size 0)
                    if self.decide(eq(n, 1)):
                        break
                    if self.decide(eq(n, 0)):
                        return False
                    self.raise_("ValueError")
            return T.truthy(self.arr_fn(v)(*[0] * v.ndim))
        if isinstance(v, (ObjRef, FamRef, ClassV, FuncV, LibV, BoundV, ModV, MethV)):
            return True
        raise Unsupported(f"truth value of {type(v).__name__}")

    def size(self, a):
        n = 1
        for d in a.shape:
            n = T.mul(n, d)
        return n

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), self.mangle(e.attr))

    def getattr(self, obj, name):
        obj = self.resolve(obj)
        if isinstance(obj, ModV):
            if obj.path.startswith(self.package):
                v = self.mod_lookup(self.load(obj.path), name)
                if v is None:
                    return ModV(obj.path + "." + name)
                return v
            from . import nplib
            p = obj.path + "." + name
            if p in nplib.CONSTS:
                return nplib.CONSTS[p]
            if p in nplib.SUBMODS:
                return ModV(p)
            return LibV(p)
        if isinstance(obj, LibV):
            return LibV(obj.path + "." + name)
        if isinstance(obj, (ObjRef, FamRef)):
            c = self.st.heap[obj.cid]
            mem = c.cls.lookup(name) if c.cls is not None else None
            if isinstance(mem, PropV):
                if mem.fget is None:
                    self.raise_("AttributeError")
                return self.take(self.call_fn(mem.fget, [obj], {}))
            if name in c.fields:
                if isinstance(obj, FamRef):
                    return self.get_fam(obj, name)
                v = c.fields[name]
                if v is UNDEF:
                    self.raise_("AttributeError")
                if isinstance(v, Poison):
                    raise PoisonRead(v.key)
                return v
            if isinstance(mem, FuncV):
                return mem if mem.static else BoundV(mem, obj)
            if isinstance(mem, tuple) and mem[0] == "classmethod":
                return BoundV(mem[1], c.cls)
            if isinstance(mem, tuple) and mem[0] == "expr":
                fr = self.frames
                self.frames = self.frames + [FuncV(None, c.cls.module, None)]
                try:
                    return self.ev(mem[1])
                finally:
                    self.frames = fr
            if name == "__class__":
                return c.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            if getattr(c.cls, "open", False):
                raise Unsupported(f"attribute {name} of an abstract object")
            self.raise_("AttributeError")
        if isinstance(obj, ClassV):
            mem = obj.lookup(name)
            if isinstance(mem, FuncV):
                return mem
            if isinstance(mem, tuple) and mem[0] == "classmethod":
                return BoundV(mem[1], obj)
            if isinstance(mem, tuple) and mem[0] == "expr":
                return self.ev(mem[1])
            if name == "__name__":
                return obj.name
            raise Unsupported(f"class attribute {name}")
        if isinstance(obj, SuperV):
            for c in self.super_mro(obj):
                if name in c.members:
                    mem = c.members[name]
                    if isinstance(mem, FuncV):
                        return BoundV(mem, obj.self_)
                    if isinstance(mem, PropV):
                        return self.take(self.call_fn(mem.fget, [obj.self_], {}))
            if name == "__init__":
                return LibV("builtins.object_init")
            raise Unsupported(f"super().{name}")
        if isinstance(obj, Arr):
            if name == "shape":
                return tuple(obj.shape)
            if name == "ndim":
                return len(obj.shape)
            if name == "size":
                return self.size(obj)
            if name == "dtype":
                return DTypeV(self.arr_dtype(obj))
            if name == "T":
                return self.transpose(obj)
            if name == "flat":
                return self.lib["numpy.ravel"](self, [obj], {})
            return MethV(obj, name)
        if isinstance(obj, Opaque):
            return Opaque(obj.name + "." + name)
        if T.is_scalar(obj) or isinstance(obj, (ListRef, DictRef, str, tuple, RangeV)):
            if T.is_scalar(obj) and name in ("shape",):
                return ()
            if T.is_scalar(obj) and name == "ndim":
                return 0
            return MethV(obj, name)
        if obj is None:
            self.raise_("AttributeError")
        if isinstance(obj, FuncV):
            if name == "py_func":
                return obj
            if name == "__name__":
                return obj.node.name
        raise Unsupported(f"attribute {name} of {type(obj).__name__}")

    def get_fam(self, obj, name):
        c = self.st.heap[obj.cid]
        fd = c.fields[name]
        if fd[0] == "s":
            return self.st.heap[fd[1]].fn(T.zi(obj.idx) if is_z3(obj.idx) else obj.idx)
        if fd[0] == "a":
            cell = self.st.heap[fd[1]]
            return Arr(fd[1], cell.shape[1:], [("f", obj.idx)] + [("a", j, 0, 1) for j in range(len(cell.shape) - 1)])
        if fd[0] == "l":
            return FamListRef(obj, name, fd[1], fd[2])
        if fd[0] == "v":
            return fd[1]
        if fd[0] == "o":
            return fd[1](obj.idx)
        raise Unsupported(f"family field {name}")

    def super_mro(self, s):
        cell = self.st.heap[s.self_.cid]
        m = cell.cls.mro()
        return m[m.index(s.cls) + 1:]

    def e_Subscript(self, e):
        obj = self.resolve(self.ev(e.value))
        return self.getitem(obj, self.ev_index(e.slice))

    def ev_index(self, s):
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index1(x) for x in s.elts)
        return self.ev_index1(s)

    def ev_index1(self, s):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.resolve(self.ev(x))
            return SliceV(g(s.lower), g(s.upper), g(s.step))
        return self.resolve(self.ev(s))

    def e_Slice(self, e):
        return self.ev_index1(e)

    def e_JoinedStr(self, e):
        return Opaque("str")

    def e_Starred(self, e):
        raise Unsupported("starred expression")

    def e_Lambda(self, e):
        fd = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(e.body), e)],
                             decorator_list=[], lineno=e.lineno)
        return FuncV(ast.copy_location(fd, e), self.frames[-1].module, self.frames[-1].cls,
                     closure=(dict(self.st.loc), self.frames[-1].closure))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.st.loc[e.target.id] = v
        return v

    def e_ListComp(self, e):
        from . import loops
        return loops.comprehension(self, e, "list")

    def e_GeneratorExp(self, e):
        from . import loops
        return loops.comprehension(self, e, "gen")

    def e_SetComp(self, e):
        raise Unsupported("set comprehension")

    def e_DictComp(self, e):
        from . import loops
        return loops.dict_comprehension(self, e)

    # ---------- calls ----------
    def call_args(self, e):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.resolve(self.ev(a.value))
                items = self.concrete_items(v)
                if items is None:
                    n = T.simp(self.length(v))
                    if isinstance(n, int) or self.const_int(n) is not None:
                        n = n if isinstance(n, int) else self.const_int(n)
                        items = [self.iter_at(v, i) for i in range(n)]
                    else:
                        args.append(("*", v))
                        continue
                args += items
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                v = self.resolve(v)
                if isinstance(v, DictRef):
                    c = self.st.heap[v.cid]
                    if c.fam is not None:
                        raise Unsupported("** of a symbolic dictionary")
                    for kk, vv in c.items:
                        kw[kk] = vv
                elif isinstance(v, Opaque):
                    pass
                else:
                    raise Unsupported("** argument")
            else:
                kw[k.arg] = v
        return args, kw

    def const_int(self, t):
        """concrete value of an integer term under the path condition, if provably unique and small"""
        for c in range(0, 7):
            if self.valid(eq(t, c)):
                return c
        return None

    def e_Call(self, e):
        return self.take([Outcome(o.st, "normal", o.val) if o.kind == "value" else o for o in self.call_stmt(e)])

    def call_stmt(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return [Outcome(self.st, "value", SuperV(self.frames[-1].cls, self.st.loc[self.frames[-1].node.args.args[0].arg]))]
        f = self.ev(e.func)
        if isinstance(f, Opaque) or isinstance(f, LibV) and f.path.split(".")[0] in ("warnings", "matplotlib", "time", "tqdm", "logging") \
                or isinstance(f, LibV) and f.path == "builtins.print":
            return [Outcome(self.st, "value", Opaque("call") if not (isinstance(f, LibV) and f.path == "builtins.print") else None)]
        if isinstance(f, MethV) and isinstance(f.obj, str) and f.name == "format":
            self.format_check(f.obj, len(e.args), [k.arg for k in e.keywords])
            return [Outcome(self.st, "value", Opaque("str"))]
        args, kw = self.call_args(e)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        """-> outcomes of kind value / raise"""
        f = self.resolve(f)
        if isinstance(f, BoundV):
            if isinstance(f.func, FuncV):
                return self.call_fn(f.func, [f.self_] + args, kw)
            raise Unsupported("bound call")
        if isinstance(f, FuncV):
            return self.call_fn(f, args, kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, LibV):
            return self.call_lib(f.path, args, kw)
        if isinstance(f, MethV):
            h = None
            for k in self.method_keys(f.obj):
                h = self.methods.get((k, f.name))
                if h:
                    break
            if h is None:
                raise Unsupported(f"method {f.name} of {type(f.obj).__name__}")
            self.used_lib.add(f"method {f.name}")
            r = h(self, f.obj, args, kw)
            if isinstance(r, list):
                return r
            return [Outcome(self.st, "value", r)]
        if isinstance(f, Opaque):
            return [Outcome(self.st, "value", Opaque("call"))]
        if isinstance(f, DTypeV):
            return [Outcome(self.st, "value", T.cast(self.resolve(args[0]), f.dt))]
        if isinstance(f, PyCall):
            r = f.fn(self, args, kw)
            if isinstance(r, list):
                return r
            return [Outcome(self.st, "value", r)]
        raise Unsupported(f"call of {type(f).__name__}")

    def method_keys(self, o):
        if isinstance(o, Arr):
            return ["arr"]
        if isinstance(o, FamListRef):
            return ["famlist"]
        if isinstance(o, ListRef):
            return ["list"]
        if isinstance(o, DictRef):
            return ["dict"]
        if isinstance(o, str):
            return ["str"]
        if isinstance(o, tuple):
            return ["tuple", "list"]
        if isinstance(o, RangeV):
            return ["range"]
        if T.is_scalar(o):
            return ["scalar"]
        return []

    def call_lib(self, path, args, kw):
        h = self.lib.get(path)
        if h is None:
            if path.startswith("exc."):
                return [Outcome(self.st, "value", ExcV(path[4:]))]
            if path.split(".")[0] in ("warnings", "matplotlib", "time", "logging"):
                return [Outcome(self.st, "value", Opaque(path))]
            raise Unsupported(f"library function {path}")
        if path.split(".")[0] not in ("builtins",):
            self.used_lib.add(path)
        r = h(self, args, kw)
        if isinstance(r, list):
            return r
        return [Outcome(self.st, "value", r)]

    def lib1(self, path, *args, **kw):
        return self.take([Outcome(o.st, "normal", o.val) if o.kind == "value" else o for o in self.call_lib(path, list(args), kw)])

    def instantiate(self, cls, args, kw):
        if cls.is_exc():
            return [Outcome(self.st, "value", ExcV(cls.name, (cls,)))]
        q = f"{cls.module.name}.{cls.name}"
        if q in self.contracts:
            r = self.contracts[q](self, cls, args, kw)
            if r is not NotImplemented:
                self.used_contracts.add(q)
                return r if isinstance(r, list) else [Outcome(self.st, "value", r)]
        o = ObjRef(self.alloc(ObjCell(cls, {})))
        init = cls.lookup("__init__")
        if isinstance(init, FuncV):
            outs = self.call_fn(init, [o] + args, kw)
            return [Outcome(x.st, "value", o) if x.kind == "value" else x for x in outs]
        return [Outcome(self.st, "value", o)]

    def bind(self, fv, args, kw):
        a = fv.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        star_sym = [x for x in args if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and x[0] == "*"]
        if star_sym:
            raise Unsupported("symbolic *args")
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_("TypeError")
            loc[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        for n, v in zip(names, args):
            loc[n] = v
        extra = {}
        for k, v in kw.items():
            if k in loc and k in names:
                self.raise_("TypeError")
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                loc[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_("TypeError")
        if a.kwarg is not None:
            loc[a.kwarg.arg] = DictRef(self.alloc(DictCell(list(extra.items()))))
        # defaults
        nd = len(a.defaults)
        missing = []
        for i, n in enumerate(names):
            if n not in loc:
                j = i - (len(names) - nd)
                if j < 0:
                    self.raise_("TypeError")
                missing.append((n, a.defaults[j]))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in loc:
                if d is None:
                    self.raise_("TypeError")
                missing.append((x.arg, d))
        if missing:
            fr, sl = self.frames, self.st.loc
            self.frames = self.frames + [FuncV(fv.node, fv.module, None)]
            self.st.loc = {}
            try:
                for n, d in missing:
                    loc[n] = self.ev(d)
            finally:
                self.frames, self.st.loc = fr, sl
        return loc

    def call_fn(self, fv, args, kw, force_inline=False):
        q = fv.qual
        if not force_inline:
            h = self.find_contract(fv, args)
            if h is not None:
                hd, cq = h
                r = hd(self, fv, args, kw)
                if r is not NotImplemented:
                    self.used_contracts.add(cq)
                    return r if isinstance(r, list) else [Outcome(self.st, "value", r)]
        if self.depth > 40:
            raise Unsupported("recursion depth")
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(fv.node)):
            raise Unsupported("generator function")
        loc = self.bind(fv, args, kw)
        body = self.anf_cache.get(fv.node)
        if body is None:
            body = Anf().block(fv.node.body)
            self.anf_cache[fv.node] = body
        self.inlined.add(q)
        st = State(dict(self.st.heap), loc, list(self.st.pc), self.st.ch)
        caller_loc = self.st.loc
        base = len(st.pc)
        saved = (self.st, self.script, self.pos, self.frames, self.in_try, self.frame_base)
        self.frame_base = self.ncid
        self.frames = self.frames + [fv]
        self.depth += 1
        try:
            outs = self.block(st, body)
        finally:
            self.st, self.script, self.pos, self.frames, self.in_try, self.frame_base = saved
            self.depth -= 1
        res = []
        for o in outs:
            if o.kind == "normal":
                o = Outcome(o.st, "return", None)
            if o.kind in ("break", "continue"):
                raise Unsupported("stray break")
            res.append(o)
        rets = []
        for o in res:
            if o.kind == "return":
                o.st.loc = {}
                rets.append(o)
        if len(rets) > 1:
            acc = [rets[0]]
            for o in rets[1:]:
                for i, p in enumerate(acc):
                    try:
                        acc[i] = self.merge2(p, o, base)
                        break
                    except NoMerge:
                        continue
                else:
                    acc.append(o)
            rets = acc
        final = []
        for o in rets:
            o.st.loc = dict(caller_loc)
            final.append(Outcome(o.st, "value", o.val))
        for o in res:
            if o.kind == "raise":
                o.st.loc = dict(caller_loc)
                if self.ctx.sat_light(o.st.pc):
                    final.append(Outcome(o.st, "raise", o.val))
        if len(final) == 1:
            self.st = final[0].st
        return final

    def find_contract(self, fv, args):
        q = fv.qual
        if q in self.contracts:
            return self.contracts[q], q
        return None

    # ---------- sequences ----------
    def concrete_items(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, ListRef):
            c = self.st.heap[v.cid]
            return list(c.items) if c.items is not None else None
        if isinstance(v, RangeV):
            if isinstance(v.start, int) and isinstance(v.stop, int):
                return list(range(v.start, v.stop, v.step))
            return None
        if isinstance(v, IterV):
            if v.items is not None:
                return list(v.items)
            if isinstance(v.n, int):
                return [v.at(i) for i in range(v.n)]
            return None
        if isinstance(v, DictRef):
            d = self.st.heap[v.cid]
            return [k for k, _ in d.items] if d.fam is None else None
        if isinstance(v, Arr):
            n = v.shape[0] if v.shape else None
            if isinstance(n, int) and n <= self.unroll_max:
                return [self.iter_at(v, i) for i in range(n)]
            return None
        if isinstance(v, str):
            return list(v)
        return None

    def length(self, v):
        v = self.resolve(v)
        if isinstance(v, tuple) or isinstance(v, str):
            return len(v)
        if isinstance(v, FamListRef):
            return self.st.heap[v.lcid].fn(v.obj.idx)
        if isinstance(v, ListRef):
            return self.st.heap[v.cid].length()
        if isinstance(v, RangeV):
            return v.length()
        if isinstance(v, IterV):
            return v.n if v.items is None else len(v.items)
        if isinstance(v, Arr):
            if not v.shape:
                self.raise_("TypeError")
            return v.shape[0]
        if isinstance(v, DictRef):
            d = self.st.heap[v.cid]
            return len(d.items) if d.fam is None else T.add(len(d.items), d.fam.n)
        raise Unsupported(f"len of {type(v).__name__}")

    def iter_at(self, v, k):
        if isinstance(v, tuple):
            if isinstance(k, int):
                return v[k]
            r = v[-1]
            for i in range(len(v) - 2, -1, -1):
                r = merge_val(eq(k, i), v[i], r)
            return r
        if isinstance(v, FamListRef):
            return self.st.heap[v.ecid].fn(v.obj.idx, k)
        if isinstance(v, ListRef):
            return self.st.heap[v.cid].at(k)
        if isinstance(v, RangeV):
            return v.at(k)
        if isinstance(v, IterV):
            if v.items is not None and isinstance(k, int):
                return v.items[k]
            return v.at(k)
        if isinstance(v, Arr):
            return self.getitem(v, k, safe=True)
        if isinstance(v, DictRef):
            d = self.st.heap[v.cid]
            if d.fam is not None and not d.items:
                return d.fam.key_at(k)
            if d.fam is None:
                return self.iter_at(tuple(kk for kk, _ in d.items), k)
        if isinstance(v, str) and isinstance(k, int):
            return v[k]
        raise Unsupported(f"iteration over {type(v).__name__}")

    # delegated to arrays.py
    def getitem(self, obj, idx, safe=False):
        from . import arrays
        return arrays.getitem(self, obj, idx, safe)

    def setitem(self, obj, idx, v):
        from . import arrays
        return arrays.setitem(self, obj, idx, v)

    def map1(self, v, f, dtype):
        from . import arrays
        return arrays.map1(self, v, f, dtype)

    def map2(self, a, b, f, dtype):
        from . import arrays
        return arrays.map2(self, a, b, f, dtype)

    def binop(self, op, a, b):
        from . import arrays
        return arrays.binop(self, op, a, b)

    def transpose(self, a):
        from . import arrays
        return arrays.transpose(self, a)


class PyCall:
    """spec-side callable"""

    def __init__(self, fn):
        self.fn = fn


class FamListRef:
    """list-valued field of a member of an object family"""

    def __init__(self, obj, name, lcid, ecid):
        self.obj, self.name, self.lcid, self.ecid = obj, name, lcid, ecid


def zb_(x):
    return T.zb(x)
