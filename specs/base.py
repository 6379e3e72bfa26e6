"""Helpers shared by the contract files."""
import os
import sys
import time
import traceback
import z3
from engine import terms as T
from engine.terms import Unsupported, and_, or_, not_, eq, ne, le, lt, ge, gt, ite, implies, iff, ident
from engine.ctx import Ctx
from engine.interp import Interp
from engine.values import *
from engine.values import State, Outcome

ROOT = os.environ.get("VP_REPO", "/repo")


class Env:
    """one verification run: a fresh context and interpreter on the current source"""

    all = []

    def __init__(self, name, timeout_ms=None):
        Env.all.append(self)
        self.vacuity = []
        self.sizes = []            # integer constants that stay constants in the symbols of sums
        self.assumed = set()
        if timeout_ms is None:
            timeout_ms = 20000 if os.environ.get("VP_TIER") != "thorough" else 120000
        self.name = name
        self.ctx = Ctx(timeout_ms)
        self.I = Interp(self.ctx, ROOT)
        self.ctx.func = name
        self.st = State()
        self.I.st = self.st

    # symbols
    def int(self, nm):
        return z3.Int(nm)

    def real(self, nm):
        return z3.Real(nm)

    def bool(self, nm):
        return z3.Bool(nm)

    def assume(self, *fs):
        for f in fs:
            if f is not True:
                self.st.pc.append(f)

    def fn(self, nm, nidx, dtype="float"):
        return self.ctx.fresh_fn_dtype(nm, nidx, dtype)

    def arr(self, nm, shape, dtype="float", fn=None):
        f = fn or self.ctx.fresh_fn_dtype(nm, len(shape), dtype)
        self.I.st = self.st
        return self.I.new_arr(shape, "float" if dtype == "xfloat" else dtype, f)

    def list(self, items=None, n=None, fn=None):
        self.I.st = self.st
        return self.I.new_list(items, n, fn)

    def dict(self, items):
        self.I.st = self.st
        return DictRef(self.I.alloc(DictCell(list(items))))

    def forall(self, vars, f, tag="pre"):
        self.ctx.assume_forall(vars, f, tag)

    def invariant(self, pick, f):
        """propose a loop invariant: f(x, idx, k) for the location(s) chosen by pick(loop, key), x its value at the start of
        iteration k; kept only if proved by induction"""
        def g(loop, key):
            if not pick(loop, key):
                return None
            def c(x, p, k):
                return f(x, p, k)
            c.ghost = True
            return c
        self.ctx.inv_candidates.append(g)

    def closed(self, pick, f):
        """propose the value f(k, *idx) at the start of iteration k for the location(s) chosen by pick(loop, key); used only if
        proved by induction"""
        def g(loop, key):
            return (lambda k, *idx: f(k, *idx)) if pick(loop, key) else None
        self.ctx.closed_forms.append(g)

    def cls(self, qual):
        return self.I.get(qual)

    def obj(self, qual, **fields):
        c = self.I.get(qual)
        self.I.st = self.st
        return ObjRef(self.I.alloc(ObjCell(c, dict(fields))))

    def call(self, f, args, kw=None, st=None):
        """outcomes of calling f (qualified name or value) from st"""
        I = self.I
        I.st = (st or self.st).clone()
        if isinstance(f, str):
            self.ctx.func = f
            f = I.get(f)
        return self._outs(lambda: I.call(f, list(args), dict(kw or {})))

    def _outs(self, thunk):
        I = self.I
        from engine.interp import NeedFork, PyRaise
        st0 = I.st
        work, outs = [[]], []
        while work:
            sc = work.pop()
            I.st = st0.clone()
            I.script, I.pos = sc, 0
            try:
                r = thunk()
            except NeedFork as f:
                for i in reversed(f.n):
                    work.append(I.script[:I.pos] + [i])
                continue
            except PyRaise as e:
                r = [Outcome(I.st, "raise", e.exc)]
            outs += r
        I.script = None
        return outs

    def method(self, obj, name, args, kw=None, st=None):
        I = self.I
        s = (st or self.st)
        c = s.heap[obj.cid].cls
        m = c.lookup(name)
        if m is None:
            raise Unsupported(f"{c.name}.{name} does not exist")
        self.ctx.func = f"{c.module.name}.{c.name}.{name}"
        I.st = s.clone()
        if isinstance(m, PropV):
            raise Unsupported("property")
        return self._outs(lambda: I.call_fn(m, [obj] + list(args), dict(kw or {})))

    def get(self, obj, name, st):
        """attribute value in state st (may run a property getter)"""
        I = self.I
        I.st = st
        I.script, I.pos = [], 0
        v = I.getattr(obj, name)
        return v

    def setattr(self, obj, name, v, st=None):
        I = self.I
        I.st = (st or self.st).clone()
        return self._outs(lambda: [Outcome(o.st, "value", o.val) if o.kind == "normal" else o for o in I.setattr_outs(obj, name, v)])

    def rd(self, a, st, *idx):
        sv = self.I.st
        self.I.st = st
        try:
            return self.I.arr_fn(a)(*idx)
        finally:
            self.I.st = sv

    def prove(self, name, st, goal, *hyps):
        return self.ctx.prove(f"{self.name}: {name}", list(st.pc) + [h for h in hyps if h is not True], goal)

    def lemma(self, name, st, goal, *hyps):
        """contract of an internal helper, used by callers: where the code no longer has it (a refactoring moved the work
        elsewhere) the section is outside the verifier, which is not a verdict on the property"""
        n = len(self.ctx.obls)
        if not self.prove(name, st, goal, *hyps):
            del self.ctx.obls[n:]
            raise Unsupported(f"internal contract does not hold as stated: {name}")

    def no_raise(self, outs, what=""):
        """every outcome is a normal return; raising paths must be infeasible"""
        good = []
        for o in outs:
            if o.kind == "raise":
                self.ctx.prove(f"{self.name}: no {o.val.cls} raised{what}", list(o.st.pc), False)
            else:
                good.append(o)
        if not good:
            # nothing but exceptions: never a normal return
            self.ctx.prove(f"{self.name}: returns normally{what}", list(self.st.pc), False)
            raise Unsupported("no normal outcome")
        if len(self.vacuity) < 12:
            self.vacuity.append((f"{self.name}{what}", any(self.sat(o.st) for o in good)))
        return good

    def reach(self, st, what=""):
        """vacuity check: the assumptions made up to here are not contradictory"""
        if len(self.vacuity) < 12:
            self.vacuity.append((f"{self.name}{what}", bool(self.sat(st))))

    def sat(self, st, *extra):
        """vacuity check: the assumptions are satisfiable"""
        r, _ = self.ctx.check(self.ctx.instantiate([T.zb(p) for p in list(st.pc) + list(extra) if p is not True], 2), 10000)
        return r != z3.unsat

    def shape(self, a, st):
        return tuple(a.shape)

    def item(self, v, k, st):
        """element k of a tuple, list or array"""
        self.I.st = st
        self.I.script, self.I.pos = [], 0
        return self.I.getitem(v, k, safe=True)

    def at(self, v, k, st):
        """element k of a sequence without an index check (k is known to be in range)"""
        self.I.st = st
        if isinstance(v, Arr):
            return self.rd(v, st, k)
        if isinstance(v, ListRef):
            return st.heap[v.cid].at(k)
        return self.item(v, k, st)

    def slim(self, st):
        """drop the path facts about reductions (argument checks already passed): fewer hypotheses, smaller queries"""
        st.pc = [p for p in st.pc if not (T.is_z3(p) and any(d in self.ctx.decl_red for d in T.decls_in(p)))]
        return st

    def total(self, f, n):
        """sum of f(0..n-1) as the solver's reduction symbol"""
        b = z3.Int(self.ctx.name("bv_tot"))
        return self.ctx._sum_term([], b, f(b), n)

    def psum(self, f, n, bound=False):
        """as total, with the integer constants of the body as parameters of the symbol; bound: n as well (as in the closed
        form of an accumulating loop)"""
        if bound:
            nb = z3.Int(self.ctx.name("nb_tot"))
            t = self.psum(f, nb)
            return T.map_terms(t, lambda x: z3.substitute(x, (nb, T.zi(n))))
        b = z3.Int(self.ctx.name("bv_tot"))
        body = f(b)
        fix = {b.get_id()} | {v.get_id() for v in T.int_consts(T.terms_of(n))} | {v.get_id() for v in self.sizes}
        ph = [v for v in T.int_consts(T.terms_of(body)) if v.get_id() not in fix]
        if T.is_z3(n) and n.decl().name().startswith("nb_tot"):
            ph.append(n)
        return self.ctx._sum_term(ph, b, body, n)

    def sum_le(self, f, parts, n):
        """instance of a fact about finite sums (linear, monotone): if f(t) <= sum_i c_i * g_i(t) for all t < n then
        sum f <= sum_i c_i * sum g_i"""
        sk = z3.Int(self.ctx.name("sk_le"))
        rhs = T.Fraction(0)
        at = T.Fraction(0)
        for c, g in parts:
            rhs = T.add(rhs, T.mul(c, self.psum(g, n)))
            at = T.add(at, T.mul(c, g(sk)))
        self.assumed.add("finite sums are linear and monotone")
        return or_(le(self.psum(f, n), rhs), and_(le(0, sk), lt(sk, n), lt(at, f(sk))))

    def sum_eq(self, f, g, n):
        """instance: sums of pointwise equal terms are equal"""
        sk = z3.Int(self.ctx.name("sk_eq"))
        return or_(eq(self.psum(f, n), self.psum(g, n)), and_(le(0, sk), lt(sk, n), not_(eq(f(sk), g(sk)))))

    def sum_swap(self, f, n, m):
        """instance of a fact about finite sums: the order of summation does not matter"""
        self.assumed.add("finite sums may be interchanged")
        return eq(self.psum(lambda i: self.psum(lambda j: f(i, j), m), n), self.psum(lambda j: self.psum(lambda i: f(i, j), n), m))

    # ---- generic comparison of values and objects (frame conditions, canonical states) ----
    def same(self, a, sa, b, sb, path="", seen=None):
        """list of (path, goal): value a in state sa equals value b in state sb, through all fields"""
        seen = set() if seen is None else seen
        self.I.st = sa
        a = a if not isinstance(a, Case) else a
        if isinstance(a, Case) or isinstance(b, Case):
            if isinstance(a, Case) and isinstance(b, Case) and same_val(a, b):
                return []
            out = []
            for g, x in (a.alts if isinstance(a, Case) else [(True, a)]):
                for h, y in (b.alts if isinstance(b, Case) else [(True, b)]):
                    out += [(p, implies(and_(g, h), f)) for p, f in self.same(x, sa, y, sb, path, seen)]
            return out
        if T.is_scalar(a) and T.is_scalar(b):
            return [(path, ident(a, b))]
        if isinstance(a, Arr) and isinstance(b, Arr):
            k = ("arr", a.cid, b.cid)
            ca, cb = sa.heap[a.cid], sb.heap[b.cid]
            if a.cid == b.cid and ca is cb and same_val(a, b):
                return []
            if a.axes is None and b.axes is None:
                if k in seen:
                    return []
                seen.add(k)
            if a.ndim != b.ndim:
                return [(path + ".ndim", False)]
            out = [(path + ".shape", and_(*[eq(x, y) for x, y in zip(a.shape, b.shape)]))]
            idx = [z3.Int(f"ix{i}_{next(self.ctx.uid)}") for i in range(a.ndim)]
            rng = and_(*[and_(le(0, i), lt(i, n)) for i, n in zip(idx, a.shape)])
            va, vb = self.rd(a, sa, *idx), self.rd(b, sb, *idx)
            out.append((path + "[]", implies(rng, ident(va, vb))))
            return out
        if type(a) != type(b):
            return [(path + ":type", False)]
        if isinstance(a, tuple):
            if len(a) != len(b):
                return [(path + ".len", False)]
            return [x for i, (p, q) in enumerate(zip(a, b)) for x in self.same(p, sa, q, sb, f"{path}[{i}]", seen)]
        if isinstance(a, (ListRef, DictRef, ObjRef)):
            k = (type(a).__name__, a.cid, b.cid)
            if k in seen:
                return []
            seen.add(k)
            ca, cb = sa.heap[a.cid], sb.heap[b.cid]
            if a.cid == b.cid and isinstance(a, ListRef) and ca is cb and ca.items is None:
                return []
            if isinstance(a, ListRef):
                if ca.items is not None and cb.items is not None:
                    return self.same(tuple(ca.items), sa, tuple(cb.items), sb, path, seen)
                i = z3.Int(f"ix_{next(self.ctx.uid)}")
                na, nb = ca.length(), cb.length()
                rng = and_(le(0, i), lt(i, na))
                return [(path + ".len", eq(na, nb))] + [(p, implies(rng, g)) for p, g in self.same(ca.at(i), sa, cb.at(i), sb, path + "[]", seen)]
            if isinstance(a, DictRef):
                if ca.fam is not None or cb.fam is not None:
                    if ca.fam is cb.fam:
                        return []
                    raise Unsupported("comparison of symbolic dictionaries")
                if len(ca.items) != len(cb.items):
                    return [(path + ".len", False)]
                out = []
                for (k1, v1), (k2, v2) in zip(ca.items, cb.items):
                    if not same_val(k1, k2):
                        return [(path + ".keys", False)]
                    out += self.same(v1, sa, v2, sb, f"{path}[{k1!r}]", seen)
                return out
            out = []
            if ca.cls is not cb.cls:
                return [(path + ".class", False)]
            for f in sorted(set(ca.fields) | set(cb.fields)):
                if f not in ca.fields or f not in cb.fields:
                    out.append((f"{path}.{f} exists", False))
                    continue
                out += self.same(ca.fields[f], sa, cb.fields[f], sb, f"{path}.{f}", seen)
            return out
        if same_val(a, b):
            return []
        raise Unsupported(f"comparison of {type(a).__name__} at {path}")

    def equal(self, a, sa, b, sb):
        """the same value in two states, as one formula"""
        return and_(*[g for _, g in self.same(a, sa, b, sb)])

    def prove_same(self, name, a, sa, b, sb, *hyps, skip=()):
        """hyps/pc: those of both states (they must come from the same initial state)"""
        pcs, ids = [], set()
        for p in list(sa.pc) + list(sb.pc):
            k = p.get_id() if T.is_z3(p) else p
            if k not in ids:
                ids.add(k)
                pcs.append(p)
        ok = True
        for path, g in self.same(a, sa, b, sb):
            if any(path.startswith(s) for s in skip):
                continue
            ok &= self.ctx.prove(f"{self.name}: {name} ({path})", pcs + [h for h in hyps if h is not True], g)
        return ok

    def raises(self, outs, excs, what=""):
        """every outcome raises one of excs; returns the raising outcomes"""
        good = []
        for o in outs:
            if o.kind == "raise" and o.val.cls in excs:
                good.append(o)
            elif o.kind == "raise":
                self.ctx.prove(f"{self.name}: raises {'/'.join(excs)}, not {o.val.cls}{what}", list(o.st.pc), False)
            else:
                self.ctx.prove(f"{self.name}: raises {'/'.join(excs)} instead of returning{what}", list(o.st.pc), False)
        return good
