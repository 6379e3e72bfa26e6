"""Verification context: axioms, reductions over symbolic ranges, ground instantiation, proof obligations.

Every query sent to the solver is quantifier free: universally quantified hypotheses (preconditions, contract
posts, reduction axioms, loop facts) are kept symbolically and instantiated at the ground terms of the query."""
import time
import itertools
import z3
from . import terms as T
from .terms import Unsupported, is_z3, zi, zr, zb, unz, and_, or_, not_, implies, ite, eq, le, lt, XF

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def sort_of(dtype):
    return {"int": I, "float": R, "bool": B}[dtype]


class Obligation:
    def __init__(self, name, func, status, secs, detail="", model=None, nform=0, backend="z3"):
        self.name, self.func, self.status, self.secs = name, func, status, secs
        self.detail, self.model, self.nform, self.backend = detail, model, nform, backend

    def as_dict(self):
        return dict(name=self.name, func=self.func, status=self.status, secs=round(self.secs, 3),
                    backend=self.backend, detail=self.detail, model=self.model)


class LFact:
    __slots__ = ("vars", "formula", "pats", "tag")

    def __init__(self, vars, formula, pats, tag):
        self.vars, self.formula, self.pats, self.tag = vars, formula, pats, tag


def skolems(t):
    """number of nested congruence witnesses in a term"""
    out, stack, seen = 0, [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        stack += x.children()
        if not x.num_args() and x.decl().name().startswith("skc_"):
            out += 1
    return out


def flat_mul(t):
    return [x for c in t.children() for x in flat_mul(c)] if z3.is_app_of(t, z3.Z3_OP_MUL) else [t]


def flat_product(t):
    """factors of the numerator and of the denominator of a real product"""
    if z3.is_app_of(t, z3.Z3_OP_MUL):
        a, b = [], []
        for c in t.children():
            x, y = flat_product(c)
            a += x
            b += y
        return a, b
    if z3.is_app_of(t, z3.Z3_OP_DIV) and not z3.is_rational_value(t):
        x, y = flat_product(t.arg(0))
        return x, y + [t.arg(1)]
    return [t], []


def product(fs):
    """product of the factors in a canonical order"""
    fs = sorted(fs, key=lambda c: c.sexpr())
    r = T.unz(fs[0]) if fs else T.Fraction(1)
    for c in fs[1:]:
        r = T.mul(r, T.unz(c))
    return r


def unmax(t):
    """If(0 <= x, x, 0) -> x: only used to propose candidate terms"""
    if not z3.is_app(t) or not t.num_args():
        return t
    if z3.is_app_of(t, z3.Z3_OP_ITE) and t.sort() == I and z3.is_int_value(t.arg(2)):
        return unmax(t.arg(1))
    return t.decl()(*[unmax(c) for c in t.children()]) if t.sort() == I and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) else t


def solve_for(e, bvs):
    """(v, t) if the equation e between integers is equivalent to v == t up to clipping, v one of bvs, t without any of them"""
    lhs = z3.simplify(unmax(e.arg(0)) - unmax(e.arg(1)), som=True)
    parts = list(lhs.children()) if z3.is_app_of(lhs, z3.Z3_OP_ADD) else [lhs]
    for v in bvs:
        hit = [(i, 1) for i, p in enumerate(parts) if p.eq(v)]
        hit += [(i, -1) for i, p in enumerate(parts) if z3.is_app_of(p, z3.Z3_OP_MUL) and p.num_args() == 2 and z3.is_int_value(p.arg(0)) and p.arg(0).as_long() == -1 and p.arg(1).eq(v)]
        if len(hit) == 1:
            i, c = hit[0]
            rest = [p for k, p in enumerate(parts) if k != i]
            if any(T.occurs(p, b) for p in rest for b in bvs):
                continue
            r = z3.Sum(rest) if rest else z3.IntVal(0)
            return v, z3.simplify(-r if c == 1 else r)
    return None


def _hole(body, v):
    """e if body is  v != e  (e without v), else None"""
    if not is_z3(body):
        return None
    if z3.is_not(body) and z3.is_eq(body.arg(0)):
        a, b = body.arg(0).children()
    elif z3.is_distinct(body) and body.num_args() == 2:
        a, b = body.children()
    else:
        return None
    for x, y in ((a, b), (b, a)):
        if x.eq(v) and not T.occurs(y, v) and y.sort() == I:
            return y
    return None


def canon_eq(t, memo=None):
    """equations with a bare variable: the variable first"""
    memo = {} if memo is None else memo
    i = t.get_id()
    if i in memo:
        return memo[i][1]
    r = t
    if z3.is_app(t) and t.num_args():
        ch = [canon_eq(c, memo) for c in t.children()]
        if z3.is_eq(t) and not z3.is_bool(ch[0]):
            bare = [c.num_args() == 0 and c.decl().kind() == z3.Z3_OP_UNINTERPRETED for c in ch]
            if bare[1] and not bare[0]:
                ch = ch[::-1]
        if any(not a.eq(b) for a, b in zip(ch, t.children())):
            r = t.decl()(*ch)
    memo[i] = (t, r)
    return r


class Red:
    """A reduction over [0,n): kind in sum/argmax/argmin/any/where1/where2."""

    def __init__(self, kind, params, bv, body, n, syms):
        self.kind, self.params, self.bv, self.body, self.n, self.syms = kind, params, bv, body, n, syms

    def at(self, args, k):
        ks = list(k) if isinstance(k, (tuple, list)) else [k]
        subs = list(zip(self.params, args)) + [(b, zi(x)) for b, x in zip(self.bv, ks)]
        return T.map_terms(self.body, lambda t: z3.substitute(t, *subs))

    def bound(self, args):
        subs = list(zip(self.params, args))
        return [T.map_terms(n, lambda t: z3.substitute(t, *subs)) if subs else n for n in self.n]


class Ctx:
    def __init__(self, timeout_ms=20000, backends=("z3",)):
        self.uid = itertools.count()
        self.loopstack = []
        self.loopkeys = []
        self._rm = {}
        self._rd = z3.Function("rdiv", R, R, R)
        self.count_sums = False
        self.lift_consts = False
        self.potentials = []        # ghost functions proposed by a contract for telescoping sums
        self.choices = {}          # z3 Int consts of the loops being summarised
        self.decl_ax = {}            # decl id -> [cb(args)->formulas]
        self.pair_ax = []            # (declA, declB, cb)
        self.lfacts = {}             # decl id -> [(LFact, pattern)]
        self.reds = {}
        self.ground = []             # closed facts (loop summaries without a free iteration variable)
        self.red_by_decl = {}
        self.keep = []               # keep z3 refs alive
        self.obls = []
        self.timeout_ms = timeout_ms
        self.backends = backends
        self.solver_secs = 0.0
        self.queries = 0
        self.mute = 0                # >0: do not record obligations (discovery passes)
        self.func = ""               # current function under contract (for reporting)
        self.deadline = time.time() + float(__import__("os").environ.get("VP_CTX_SECS", "200"))
        self.assumed = set()         # names of assumed (library) contracts used
        self.rounds = 4
        self.max_inst = 2500
        self.prefix_note = ""
        self.decl_red = {}           # decl id -> Red (every symbol of a reduction)
        self.defs = {}               # decl id -> [terms its definition mentions]
        self.dims = []               # dimension terms offered as bounds to invariant inference
        self.tail_sums = False       # compare sums of the same terms up to different bounds
        self.loop_prev = False       # use the previous iteration's facts as induction hypothesis
        self.closed_forms = []       # spec-provided closed forms of loop-carried values
        self.inv_candidates = []     # spec-provided loop invariant candidates
        self.telescope_hints = []
        self._deep = {}
        self._register_math()

    # ---------- fresh symbols ----------
    def name(self, base):
        return f"{base}!{next(self.uid)}"

    def fresh(self, base, sort):
        """fresh value depending on the enclosing loops' iteration numbers"""
        if not self.loopstack:
            return z3.Const(self.name(base), sort)
        f = z3.Function(self.name(base), *([I] * len(self.loopstack)), sort)
        return f(*self.loopstack)

    def choice(self, I_, base, sort):
        """an arbitrary value (random number, result of a callee under contract): inside a loop body it is the same
        symbol in every symbolic run of that body"""
        if not self.loopkeys:
            return self.fresh(base, sort)
        k = (self.loopkeys[-1], I_.st.ch, base, str(sort), len(self.loopstack))
        I_.st.ch += 1
        f = self.choices.get(k)
        if f is None:
            f = self.choices[k] = z3.Function(self.name(base), *([I] * len(self.loopstack)), sort)
        return f(*self.loopstack)

    def fresh_fn(self, base, nidx, sort):
        """fresh function of nidx int indices (and of the enclosing loops' iteration numbers)"""
        ls = list(self.loopstack)
        f = z3.Function(self.name(base), *([I] * (len(ls) + nidx)), sort)
        self.keep.append(f)
        if len(ls) + nidx == 0:
            c = z3.Const(self.name(base), sort)
            return lambda: c
        g = lambda *idx: f(*ls, *[zi(i) for i in idx])
        g.decl = f
        return g

    def fresh_dtype(self, base, dtype):
        if dtype == "xfloat":
            return self.fresh_xf(base)
        return self.fresh(base, sort_of(dtype))

    def fresh_xf(self, base):
        n, m, p = self.fresh(base + "_nan", B), self.fresh(base + "_ninf", B), self.fresh(base + "_pinf", B)
        v = self.fresh(base, R)
        return XF(v, n, and_(not_(n), m), and_(not_(n), not_(m), p))

    def fresh_fn_dtype(self, base, nidx, dtype):
        if dtype == "xfloat":
            v = self.fresh_fn(base, nidx, R)
            n = self.fresh_fn(base + "_nan", nidx, B)
            m = self.fresh_fn(base + "_ninf", nidx, B)

            def g(*idx):
                nn = n(*idx)
                return XF(v(*idx), nn, and_(not_(nn), m(*idx)), False)
            g.decl = v.decl
            return g
        return self.fresh_fn(base, nidx, sort_of(dtype))

    # ---------- axioms ----------
    def add_decl_axiom(self, decl, cb):
        self.keep.append(decl)
        self.decl_ax.setdefault(decl.get_id(), []).append(cb)

    def add_pair_axiom(self, da, db, cb):
        self.keep += [da, db]
        self.pair_ax.append((da.get_id(), db.get_id(), cb))

    def assume_forall(self, vars, formula, tag="", extra_pats=(), pats=None, defs=()):
        """formula valid for all values of vars (Int consts); instantiated by matching"""
        if formula is True:
            return
        formula = zb(formula)
        for d in defs:
            self.defs.setdefault(d.get_id(), []).append(formula)
        if defs:
            self._deep = {}
        vars = [v for v in vars if T.occurs(formula, v)]
        if not vars:
            self.ground.append(formula)
            return
        if pats is not None:
            vids = {v.get_id() for v in vars}
            fact = LFact(list(vars), formula, list(pats), tag)
            self.keep.append(fact)
            for p in pats:
                if z3.is_app(p) and p.num_args() and p.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    self.lfacts.setdefault(p.decl().get_id(), []).append((fact, p))
            return
        vids = {v.get_id() for v in vars}
        pats = []
        seen = set()
        stack = [formula] + [p for p in extra_pats]
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t):
                stack.extend(t.children())
                if t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    bound = set()
                    for a in t.children():
                        v = self._var_off(a, vids)
                        if v is not None:
                            bound.add(v[0].get_id())
                    if bound == vids:
                        pats.append(t)
                    r2 = self.decl_red.get(t.decl().get_id())
                    if r2 is not None and r2.kind == "any" and bound and len(r2.params) == t.num_args():
                        # terms inside the reduction trigger the fact as well
                        ren = [(v, z3.Int("inner_" + v.decl().name())) for v in r2.bv]
                        stack += [z3.substitute(z3.substitute(y, *ren), *zip(r2.params, t.children())) for y in T.terms_of(r2.body)]
        if not pats:
            # not triggerable: usable only through explicit instantiation
            return
        fact = LFact(list(vars), formula, pats, tag)
        self.keep.append(fact)
        for p in pats:
            self.lfacts.setdefault(p.decl().get_id(), []).append((fact, p))

    @staticmethod
    def _var_off(a, vids):
        """a is v or v + const -> (v, const)"""
        if a.get_id() in vids:
            return a, 0
        if z3.is_app_of(a, z3.Z3_OP_ADD) and a.num_args() == 2:
            x, y = a.arg(0), a.arg(1)
            if z3.is_int_value(x) and y.get_id() in vids:
                return y, x.as_long()
            if z3.is_int_value(y) and x.get_id() in vids:
                return x, y.as_long()
        return None

    @staticmethod
    def _var_term(a, vids):
        """a is v + e with e free of the variables -> (v, e)"""
        if z3.is_app_of(a, z3.Z3_OP_ADD):
            hit = [c for c in a.children() if c.get_id() in vids]
            rest = [c for c in a.children() if c.get_id() not in vids]
            if len(hit) == 1 and rest:
                ds = {d for c in rest for d in T.decls_in(c)}
                if hit[0].decl().get_id() in ds:
                    return None
                e = z3.Sum(rest) if len(rest) > 1 else rest[0]
                return hit[0], e
        return None

    # ---------- reductions ----------
    def reduction(self, kind, idx, bv, body, n):
        """body(idx placeholders, bound vars bv, loop vars) over bv in [0,n). Returns app(*idx_values)->symbols.
        idx: list of fresh Int consts used as placeholders."""
        body = T.map_terms(body, canon_eq)
        bts = T.terms_of(body)
        nts = [t for x in n for t in T.terms_of(x)]
        locs = [v for v in self.loopstack if any(T.occurs(t, v) for t in bts + nts)]
        allp = list(idx) + locs
        order = T.int_consts(bts + nts)
        pid = {v.get_id(): i for i, v in enumerate(allp)}
        use = [pid[v.get_id()] for v in order if v.get_id() in pid]
        params = [allp[i] for i in use]
        if self.lift_consts:
            fix = {v.get_id() for v in T.int_consts(nts)} | {v.get_id() for v in bv} | set(pid)
            extra = [v for v in order if v.get_id() not in fix]
        else:
            extra = []
        params = params + extra
        canon = [z3.Int(f"ph_{i}") for i in range(len(params))]
        cbv = [z3.Int(f"bv_{i}") for i in range(len(bv))]
        subs = list(zip(params, canon)) + list(zip(bv, cbv))
        sub = (lambda t: z3.substitute(t, *subs)) if subs else (lambda t: t)
        cbody = T.map_terms(body, sub)
        cn = [T.map_terms(x, sub) for x in n]

        def k(x):
            if isinstance(x, XF):
                return tuple(k(y) for y in (x.val, x.nan, x.ninf, x.pinf))
            if is_z3(x):
                return ("z", x.get_id())
            return ("c", str(type(x)), str(x))
        key = (kind, k(cbody), tuple(k(x) for x in cn), len(params))
        red = self.reds.get(key)
        if red is None:
            red = self._mk_red(kind, canon, cbv, cbody, cn)
            self.reds[key] = red
            self.keep.append((cbody, cn))

        def app(*vals):
            args = [zi(v) for v in vals] + locs
            return red.apply([args[i] for i in use] + extra)
        return app

    def _mk_red(self, kind, params, bv, body, n):
        ar = [I] * len(params)
        nm = self.name(kind)
        red = Red(kind, params, bv, body, n, None)
        xfbody = isinstance(body, XF)

        def mkf(suffix, extra, sort):
            f = z3.Function(nm + suffix, *(ar + [I] * extra), sort)
            self.keep.append(f)
            self.decl_red[f.get_id()] = red
            return f

        def ap(f, *a):
            return f(*a) if f.arity() else f()

        inr = lambda k, nn: and_(le(0, k), lt(k, nn))
        if kind in ("argmax", "argmin"):
            w = mkf("", 0, I)
            better = (lambda x, y: T.le(x, y)) if kind == "argmax" else (lambda x, y: T.le(y, x))
            strict = (lambda x, y: T.lt(x, y)) if kind == "argmax" else (lambda x, y: T.lt(y, x))

            def ax(*args):
                nn, = red.bound(args)
                return [implies(le(1, nn), inr(ap(w, *args), nn))]

            def allk(args, k):
                nn, = red.bound(args)
                wt = ap(w, *args)
                bk, bw = red.at(args, k), red.at(args, wt)
                nan_w = T.isnan(bw)
                f = [implies(inr(k, nn), or_(nan_w, better(bk, bw)))]
                if xfbody:
                    f.append(implies(and_(inr(k, nn), T.isnan(bk)), nan_w))
                f.append(implies(and_(inr(k, nn), lt(k, wt)), or_(and_(nan_w, not_(T.isnan(bk))), strict(bk, bw))))
                return f
            red.apply = lambda args: ap(w, *args)
            red.main = w
            red.allk = allk
            self.add_decl_axiom(w, ax)
        elif kind == "any":
            f = mkf("", 0, B)
            w = mkf("_w", 0, I)

            def ax(*args):
                nn, = red.bound(args)
                wt = ap(w, *args)
                return [implies(ap(f, *args), and_(inr(wt, nn), red.at(args, wt)))]

            def allk(args, k):
                nn, = red.bound(args)
                return [or_(ap(f, *args), not_(inr(k, nn)), not_(red.at(args, k)))]
            red.apply = lambda args: ap(f, *args)
            red.main = f
            red.allk = allk
            self.add_decl_axiom(f, ax)
        elif kind == "sum":
            isint = T.is_int(body) or T.is_bool(body)
            if xfbody:
                raise Unsupported("sum over possibly special floats")
            f = mkf("", 0, I if isint else R)
            skn, skz = mkf("_neg", 0, I), mkf("_nz", 0, I)
            sks = mkf("_ss", 1, I)

            def ax(*args):
                nn, = red.bound(args)
                S = ap(f, *args)
                out = [implies(le(nn, 0), eq(S, 0))]
                g = self._sum_over_where(red, args, nn)
                if g is not None:
                    out.append(eq(S, g))
                for j, C in enumerate(self.potentials):
                    # telescoping: C(k+1) - C(k) = body(k) on [0, n)  ==>  sum = C(n) - C(0)
                    if isint != T.is_int(C(zi(0))):
                        continue
                    sk = z3.Function("sktel_%d_%s" % (j, nm), *[a.sort() for a in args], z3.IntSort())(*args) if args else z3.Int("sktel_%d_%s" % (j, nm))
                    out.append(or_(eq(S, T.sub(C(nn), C(zi(0)))), lt(nn, 0),
                                   and_(inr(sk, nn), T.ne(red.at(args, sk), T.sub(C(T.add(sk, 1)), C(sk))))))
                return out

            def ax_sign(*args):
                nn, = red.bound(args)
                S = ap(f, *args)
                n1, z1 = ap(skn, *args), ap(skz, *args)
                return [or_(le(0, S), and_(inr(n1, nn), lt(red.at(args, n1), 0))),
                        or_(eq(S, 0), and_(inr(z1, nn), T.ne(red.at(args, z1), 0)))]
            ax_sign.sign = True
            self.add_decl_axiom(f, ax_sign)

            def allk(args, k):
                nn, = red.bound(args)
                S = ap(f, *args)
                n1 = ap(skn, *args)
                s1 = sks(*args, zi(k))
                bk = red.at(args, k)
                return [implies(inr(k, nn), or_(le(bk, S), and_(inr(n1, nn), lt(red.at(args, n1), 0)))),
                        implies(inr(k, nn), or_(eq(S, bk), and_(inr(s1, nn), T.ne(s1, k), T.ne(red.at(args, s1), 0))))]
            red.apply = lambda args: ap(f, *args)
            red.main = f
            red.allk = allk
            self.add_decl_axiom(f, ax)
        elif kind == "where1":
            cnt = mkf("_cnt", 0, I)
            at = mkf("_at", 1, I)
            rank = mkf("_rank", 1, I)

            def ax_at(*a):
                args, j = a[:-1], a[-1]
                nn, = red.bound(args)
                e = at(*args, j)
                c = ap(cnt, *args)
                return [implies(inr(j, c), and_(inr(e, nn), red.at(args, e), eq(rank(*args, e), j)))]

            def ax_cnt(*args):
                nn, = red.bound(args)
                c = ap(cnt, *args)
                return [le(0, c), implies(le(0, nn), le(c, nn)),
                        implies(le(1, c), and_(inr(at(*args, zi(0)), nn), red.at(args, at(*args, zi(0)))))]

            def mono(a, b):
                aa, j1, bb, j2 = a[:-1], a[-1], b[:-1], b[-1]
                if len(aa) != len(bb) or not all(x.eq(y) for x, y in zip(aa, bb)):
                    return []
                c = ap(cnt, *aa)
                return [implies(and_(le(0, j1), lt(j1, j2), lt(j2, c)), lt(at(*aa, j1), at(*aa, j2))),
                        implies(and_(le(0, j2), lt(j2, j1), lt(j1, c)), lt(at(*aa, j2), at(*aa, j1)))]

            def allk(args, k):
                nn, = red.bound(args)
                c = ap(cnt, *args)
                r = rank(*args, zi(k))
                return [implies(and_(inr(k, nn), red.at(args, k)), and_(inr(r, c), eq(at(*args, r), k)))]
            red.apply = lambda args: (ap(cnt, *args), lambda j: at(*args, zi(j)), lambda i: rank(*args, zi(i)))
            red.main = cnt
            red.allk = allk
            red.extra_main = at

            def ax_count(*args):
                # size of the index set as a sum of indicators
                if not self.count_sums:
                    return []
                nn, = red.bound(args)
                i = z3.Int("ci")
                return [eq(ap(cnt, *args), self._sum_term([], i, ite(red.at(args, i), 1, 0), nn))]
            self.add_decl_axiom(cnt, ax_count)
            hole = _hole(body, bv[0])
            if hole is not None:
                # all indices but one: the enumeration is known in closed form
                sb = lambda args: z3.substitute(hole, *zip(red.params, args)) if red.params else hole

                def ax_hole(*args):
                    nn, = red.bound(args)
                    h = sb(args)
                    return [implies(le(0, nn), eq(ap(cnt, *args), T.sub(nn, ite(inr(h, nn), 1, 0))))]

                def ax_hole_at(*a):
                    args, j = a[:-1], a[-1]
                    h = sb(args)
                    return [implies(inr(j, ap(cnt, *args)), eq(at(*args, j), ite(or_(lt(j, h), lt(h, 0)), j, T.add(j, 1))))]
                self.add_decl_axiom(cnt, ax_hole)
                self.add_decl_axiom(at, ax_hole_at)
            self.add_decl_axiom(at, ax_at)
            self.add_decl_axiom(cnt, ax_cnt)
            # any use of at() mentions cnt
            self.add_decl_axiom(at, lambda *a: [le(0, ap(cnt, *a[:-1]))])
            self.add_pair_axiom(at, at, mono)
        elif kind == "where2":
            cnt = mkf("_cnt", 0, I)
            a0, a1 = mkf("_at0", 1, I), mkf("_at1", 1, I)
            rank = mkf("_rank", 2, I)

            def ax_at(*a):
                args, j = a[:-1], a[-1]
                n0, n1 = red.bound(args)
                e0, e1 = a0(*args, j), a1(*args, j)
                c = ap(cnt, *args)
                return [implies(inr(j, c), and_(inr(e0, n0), inr(e1, n1), red.at(args, (e0, e1)),
                                                eq(rank(*args, e0, e1), j)))]

            def mono(a, b):
                aa, j1, bb, j2 = a[:-1], a[-1], b[:-1], b[-1]
                if len(aa) != len(bb) or not all(x.eq(y) for x, y in zip(aa, bb)):
                    return []
                c = ap(cnt, *aa)
                out = []
                for p, q in ((j1, j2), (j2, j1)):
                    out.append(implies(and_(le(0, p), lt(p, q), lt(q, c)),
                                       or_(lt(a0(*aa, p), a0(*aa, q)),
                                           and_(eq(a0(*aa, p), a0(*aa, q)), lt(a1(*aa, p), a1(*aa, q))))))
                return out

            def allk(args, k):
                n0, n1 = red.bound(args)
                c = ap(cnt, *args)
                r = rank(*args, zi(k[0]), zi(k[1]))
                return [implies(and_(inr(k[0], n0), inr(k[1], n1), red.at(args, k)),
                                and_(inr(r, c), eq(a0(*args, r), k[0]), eq(a1(*args, r), k[1])))]
            red.apply = lambda args: (ap(cnt, *args), lambda j: a0(*args, zi(j)), lambda j: a1(*args, zi(j)),
                                      lambda i, j: rank(*args, zi(i), zi(j)))
            red.main = cnt
            red.ats = (a0, a1)
            red.allk = allk
            self.add_decl_axiom(a0, ax_at)
            self.add_decl_axiom(a1, ax_at)
            self.add_decl_axiom(a0, lambda *a: [le(0, ap(cnt, *a[:-1]))])
            self.add_decl_axiom(a1, lambda *a: [le(0, ap(cnt, *a[:-1]))])
            self.add_decl_axiom(cnt, lambda *args: [le(0, ap(cnt, *args))])
            self.add_pair_axiom(a0, a0, mono)
        else:
            raise Unsupported(kind)
        self.red_by_decl[red.main.get_id()] = red
        return red

    # ---------- mathematics of imul / idiv / imod / exp ... ----------
    def _register_math(self):
        def ax_imul(a, b):
            p = T.IMUL(a, b)
            return [implies(or_(eq(a, 0), eq(b, 0)), eq(p, 0)),
                    implies(eq(a, 1), eq(p, b)), implies(eq(b, 1), eq(p, a)),
                    implies(eq(a, -1), eq(p, -b)), implies(eq(b, -1), eq(p, -a)),
                    implies(and_(le(1, a), le(1, b)), and_(le(a, p), le(b, p))),
                    implies(and_(le(a, -1), le(b, -1)), and_(le(-a, p), le(-b, p))),
                    implies(and_(le(2, a), le(2, b)), and_(le(2 * a, p), le(2 * b, p))),
                    implies(and_(le(a, -2), le(b, -2)), and_(le(-2 * a, p), le(-2 * b, p))),
                    implies(and_(le(1, a), le(b, -1)), and_(le(p, -a), le(p, b))),
                    implies(and_(le(a, -1), le(1, b)), and_(le(p, a), le(p, -b))),
                    implies(and_(le(0, a), le(0, b)), le(0, p)),
                    implies(and_(le(a, 0), le(b, 0)), le(0, p))]
        self.add_decl_axiom(T.IMUL, ax_imul)

        def ax_div(a, b):
            q, r = T.IDIV(a, b), T.IMOD(a, b)
            return [implies(lt(0, b), and_(eq(a, T.add(T.imul(q, b), r)), le(0, r), lt(r, b))),
                    implies(and_(lt(0, b), le(0, a)), le(0, q))]
        self.add_decl_axiom(T.IDIV, ax_div)
        self.add_decl_axiom(T.IMOD, ax_div)

        def pair_div_mul(a, m):
            # uniqueness of quotient/remainder; monotonicity against a known product
            out = []
            e, h = a
            for x, hh in ((m[0], m[1]), (m[1], m[0])):
                if hh.eq(h):
                    p = T.IMUL(m[0], m[1])
                    d = e - p
                    q, r = T.IDIV(e, h), T.IMOD(e, h)
                    out += [implies(and_(lt(0, h), le(0, d), lt(d, h)), and_(eq(q, x), eq(r, d))),
                            implies(and_(lt(0, h), lt(e, p)), lt(q, x)),
                            implies(and_(lt(0, h), le(p, e)), le(x, q))]
            return out
        self.add_pair_axiom(T.IDIV, T.IMUL, pair_div_mul)
        self.add_pair_axiom(T.IMOD, T.IMUL, pair_div_mul)

        def pair_mul(a, b):
            out = []
            for (x, h) in ((a[0], a[1]), (a[1], a[0])):
                for (y, g) in ((b[0], b[1]), (b[1], b[0])):
                    if h.eq(g) and x.eq(y):
                        p, q = T.IMUL(*a), T.IMUL(*b)
                        if not p.eq(q):
                            out.append(eq(p, q))
                    if h.eq(g) and not x.eq(y):
                        p, q = T.IMUL(*a), T.IMUL(*b)
                        out += [implies(and_(lt(0, h), lt(x, y)), le(p + h, q)),
                                implies(and_(lt(0, h), lt(y, x)), le(q + h, p)),
                                implies(eq(x, y), eq(p, q)),
                                implies(eq(y, T.add(x, 1)), eq(q, p + h)),
                                implies(eq(x, T.add(y, 1)), eq(p, q + h))]
            return out
        self.add_pair_axiom(T.IMUL, T.IMUL, pair_mul)

        self.add_decl_axiom(T.EXP, lambda x: [T.EXP(x) > 0, implies(eq(x, 0), eq(T.EXP(x), 1)),
                                              implies(le(x, 0), le(T.EXP(x), 1))])

        def pair_exp(a, b):
            x, y = a[0], b[0]
            return [implies(lt(x, y), lt(T.EXP(x), T.EXP(y))), implies(lt(y, x), lt(T.EXP(y), T.EXP(x))),
                    implies(eq(x, y), eq(T.EXP(x), T.EXP(y)))]
        self.add_pair_axiom(T.EXP, T.EXP, pair_exp)
        self.add_decl_axiom(T.SQRT, lambda x: [implies(le(0, x), and_(le(0, T.SQRT(x)), eq(T.SQRT(x) * T.SQRT(x), x))),
                                               implies(eq(x, 0), eq(T.SQRT(x), 0)),
                                               implies(and_(le(0, x)), and_(T.iff(eq(T.SQRT(x), 1), eq(x, 1)))),
                                               implies(lt(0, x), lt(0, T.SQRT(x)))])

        def pair_log(a, b):
            x, y = a[0], b[0]
            return [implies(and_(lt(0, x), lt(x, y)), lt(T.LOG(x), T.LOG(y))),
                    implies(and_(lt(0, y), lt(y, x)), lt(T.LOG(y), T.LOG(x)))]
        self.add_pair_axiom(T.LOG, T.LOG, pair_log)
        self.add_decl_axiom(T.LOG, lambda x: [implies(eq(x, 1), eq(T.LOG(x), 0)), implies(le(1, x), le(0, T.LOG(x)))])

    # ---------- proving ----------
    def sum_leaves(self, red):
        """the unknowns a sum is made of"""
        r = getattr(red, "_leaves", None)
        if r is None:
            red._leaves = r = frozenset(self._fdecl(red))
        return r

    def _fdecl(self, red):
        """ids of the uninterpreted functions (not constants) below a reduction"""
        out, work, seen = set(), list(T.terms_of(red.body)), set()
        while work:
            t = work.pop()
            if t.get_id() in seen or not z3.is_app(t):
                continue
            seen.add(t.get_id())
            work += t.children()
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
                r2 = self.decl_red.get(d.get_id())
                if r2 is not None:
                    if r2 is not red:
                        work += T.terms_of(r2.body)
                else:
                    out.add(d.get_id())
        return out

    def instantiate(self, forms, rounds=None, extra_terms=(), strict=False, opaque=False):
        rounds = self.rounds if rounds is None else rounds
        out = [f for f in forms if f is not True] + list(self.ground)
        out = [zb(f) for f in out]
        apps = {}           # decl id -> {ast id: app}
        seen = set()
        done = set()
        fset = set(f.get_id() for f in out)
        ninst = 0

        def scan(t, new):
            stack = [t]
            while stack:
                x = stack.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                self.keep_scan.append(x)
                if z3.is_app(x):
                    ch = x.children()
                    stack.extend(ch)
                    d = x.decl()
                    if d.kind() == z3.Z3_OP_UNINTERPRETED and (ch or d.get_id() in self.red_by_decl or d.get_id() in self.decl_ax):
                        apps.setdefault(d.get_id(), {})[i] = x
                        new.append(x)
        self.keep_scan = []
        new = []
        for f in out:
            scan(f, new)
        for t in extra_terms:
            scan(t, new)
        t_lim = time.time() + 15
        for rnd in range(rounds):
            if time.time() > t_lim:
                break
            added = []

            def emit(f):
                nonlocal ninst
                if f is True:
                    return
                f = zb(f)
                s = z3.simplify(f)
                if z3.is_true(s):
                    return
                if s.get_id() in fset:
                    return
                fset.add(s.get_id())
                added.append(s)
                ninst += 1
            cur, new = new, []
            if not cur and rnd > 0:
                break
            for a in cur:
                did = a.decl().get_id()
                osum = opaque and did in self.red_by_decl and self.red_by_decl[did].kind == "sum" and not (opaque == 2 and self.nested_sum(self.red_by_decl[did]))
                for cb in self.decl_ax.get(did, ()):
                    if osum:
                        break
                    if strict and getattr(cb, "sign", False):
                        continue
                    for f in cb(*a.children()):
                        emit(f)
                for fact, pat in self.lfacts.get(did, ()):
                    b = self._match(fact, pat, a)
                    if b is not None:
                        key = (id(fact),) + tuple(x.get_id() for x in b)
                        if key in done:
                            continue
                        done.add(key)
                        self.keep_scan.extend(b)
                        emit(z3.substitute(fact.formula, *zip(fact.vars, b)))
            # pair axioms
            for da, db, cb in self.pair_ax:
                A, Bm = apps.get(da, {}), apps.get(db, {})
                for ia, xa in list(A.items()):
                    for ib, xb in list(Bm.items()):
                        if da == db and ia >= ib:
                            continue
                        key = ("p", id(cb), ia, ib)
                        if key in done:
                            continue
                        done.add(key)
                        for f in cb(xa.children(), xb.children()):
                            emit(f)
            # reductions: forall-k instances through matching on the body, congruence of sums
            sums = []
            for did, red in list(self.red_by_decl.items()):
                for ia, xa in list(apps.get(did, {}).items()):
                    if time.time() > t_lim:
                        break
                    args = xa.children()
                    if red.kind == "sum":
                        if opaque and not (opaque == 2 and self.nested_sum(red)):
                            break
                        sums.append((red, xa, args))
                        if strict or opaque:
                            continue
                    for k in self._cands(red, args, apps):
                        key = ("r", did, ia) + tuple(x.get_id() for x in k)
                        if key in done:
                            continue
                        done.add(key)
                        self.keep_scan.extend(k)
                        for f in red.allk(args, k if len(k) > 1 else k[0]):
                            emit(f)
            for i in range(len(sums)):
                for j in range(i + 1, len(sums)):
                    r1, x1, a1 = sums[i]
                    r2, x2, a2 = sums[j]
                    if x1.sort() != x2.sort():
                        continue
                    nsk = skolems(x1) + skolems(x2) if strict else 0
                    if strict and (not opaque and self.sum_leaves(r1) != self.sum_leaves(r2) and not (strict == 2 and nsk == 0) or nsk > (0 if opaque else 2)):
                        continue
                    key = ("s", min(x1.get_id(), x2.get_id()), max(x1.get_id(), x2.get_id()))
                    if key in done:
                        continue
                    done.add(key)
                    emit(self.sum_congr(r1, x1, a1, r2, x2, a2))
            for f in added:
                scan(f, new)
                out.append(f)
            if ninst > self.max_inst:
                break
        self.last_apps = apps
        return out

    def _sum_over_where(self, red, args, nn):
        """sum over the enumeration of an index set = guarded sum over all indices"""
        cache = red.__dict__.setdefault("_where", {}) if hasattr(red, "__dict__") else {}
        raw = red.n[0]
        fixed = [p is not None and is_z3(raw) and T.occurs(raw, p) for p in red.params]
        key = tuple(args[i].get_id() for i in range(len(args)) if fixed[i])
        if key not in cache:
            ph = [args[i] if fixed[i] else z3.Int(self.name("wp")) for i in range(len(args))]
            cache[key] = (ph, self._sum_over_where1(red, ph, red.bound(ph)[0]), list(args))
        ph, t, _ = cache[key]
        sub = [(p, a) for p, a, f in zip(ph, args, fixed) if not f]
        if t is None or not sub or not is_z3(t):
            return t
        return T.unz(z3.substitute(t, *sub))

    def _sum_over_where1(self, red, args, nn):
        if not (is_z3(nn) and z3.is_app(nn)):
            return None
        wr = self.red_by_decl.get(nn.decl().get_id())
        if wr is None or wr.kind not in ("where1", "where2"):
            return None
        wa = nn.children()
        b = z3.Int(self.name("wb"))
        body = red.at(args, b)
        if wr.kind == "where2":
            i, j = z3.Int("wi"), z3.Int("wj")
            nb = T.map_terms(body, lambda x: z3.substitute(x, (wr.ats[0](*wa, b), i), (wr.ats[1](*wa, b), j)))
            if any(T.occurs(x, b) for x in T.terms_of(nb)):
                return None
            n0, n1 = wr.bound(wa)
            inner = self._sum_term(list(args) + [i], j, ite(wr.at(wa, (i, j)), nb, 0 if T.is_int(nb) else T.Fraction(0)), n1)
            return self._sum_term(list(args), i, inner, n0)
        term = wr.extra_main(*wa, b)
        i = z3.Int("wi")
        nb = T.map_terms(body, lambda x: z3.substitute(self._through(x, wr, wa, b, i), (term, i)))
        if any(T.occurs(x, b) for x in T.terms_of(nb)):
            return None
        n, = wr.bound(wa)
        return self._sum_term(list(args), i, ite(wr.at(wa, i), nb, 0 if T.is_int(nb) else T.Fraction(0)), n)

    def _through(self, t, wr, wa, b, i):
        """rewrite reductions nested in t that depend on b only through the b-th element of the enumeration"""
        reps = []
        stack, seen = [t], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            stack += x.children()
            r2 = self.red_by_decl.get(x.decl().get_id())
            if r2 is None or r2.kind not in ("sum", "any", "argmax", "argmin") or not any(c.eq(b) for c in x.children()):
                continue
            ph = [z3.Int(self.name("tp")) for _ in r2.params]
            pb = [p for p, c in zip(ph, x.children()) if c.eq(b)]
            bv = z3.Int(self.name("tv"))
            pi = z3.Int(self.name("ti"))
            sb = [(wr.extra_main(*wa, p), pi) for p in pb]
            nb = T.map_terms(r2.at(ph, bv), lambda y: z3.substitute(y, *sb))
            nn = [T.map_terms(y, lambda z: z3.substitute(z, *sb)) for y in r2.bound(ph)]
            if any(T.occurs(y, p) for p in pb for z in [nb] + nn for y in T.terms_of(z)):
                continue
            rest = [(p, c) for p, c in zip(ph, x.children()) if not c.eq(b)]
            app = self.reduction(r2.kind, [p for p, _ in rest] + [pi], [bv], nb, nn)(*[c for _, c in rest], i)
            reps.append((x, app))
        return z3.substitute(t, *reps) if reps else t

    def sum_congr(self, r1, x1, a1, r2, x2, a2):
        sk = z3.Int(f"skc_{x1.get_id()}_{x2.get_id()}")
        n1, n2 = r1.bound(a1)[0], r2.bound(a2)[0]
        inr = and_(le(0, sk), lt(sk, n1))
        if self.tail_sums and r1 is r2 and not T.same(n1, n2):
            # the same sum up to different bounds: equal unless a term in between is not zero
            t = z3.Int(f"skt_{x1.get_id()}_{x2.get_id()}")
            at = r1.at(a1, t)
            if T.same(at, r2.at(a2, t)):
                return or_(eq(x1, x2), and_(T.ne(at, 0), le(0, t), or_(and_(le(n1, t), lt(t, n2)), and_(le(n2, t), lt(t, n1)))))
        return or_(eq(x1, x2), T.ne(n1, n2), and_(inr, T.ne(r1.at(a1, sk), r2.at(a2, sk))))

    def _match(self, fact, pat, app):
        vids = {v.get_id(): i for i, v in enumerate(fact.vars)}
        b = [None] * len(fact.vars)
        for p, g in zip(pat.children(), app.children()):
            v = self._var_off(p, vids)
            if v is None:
                continue
            i = vids[v[0].get_id()]
            t = g if v[1] == 0 else z3.simplify(g - v[1])
            if b[i] is None:
                b[i] = t
            elif not b[i].eq(t):
                return None
        return b if all(x is not None for x in b) else None

    def _cands(self, red, args, apps):
        """candidate index terms for the bound variables of a reduction, by matching body subterms"""
        key = ("pat", id(red))
        pats = getattr(red, "_pats", None)
        if pats is None:
            pats = []
            bids = {b.get_id(): i for i, b in enumerate(red.bv)}
            stack = list(T.terms_of(red.body))
            seen = set()
            while stack:
                t = stack.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if z3.is_app(t):
                    stack.extend(t.children())
                    r2 = self.decl_red.get(t.decl().get_id())
                    if r2 is not None and r2 is not red and r2.kind == "any" and red.kind == "any" and len(r2.params) == t.num_args():
                        # look into a nested reduction for terms indexed by the outer bound variable
                        for y in T.terms_of(r2.body):
                            y = z3.substitute(y, *[(v, z3.Int("inner_" + v.decl().name())) for v in r2.bv])
                            stack.append(z3.substitute(y, *zip(r2.params, t.children())) if r2.params else y)
                    if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        pos = []
                        for i, a in enumerate(t.children()):
                            v = self._var_off(a, bids)
                            if v is None:
                                v = self._var_term(a, bids)
                                if v is not None and any(T.occurs(v[1], b) for b in red.bv):
                                    v = None
                            if v is not None:
                                pos.append((i, bids[v[0].get_id()], v[1]))
                        if pos:
                            pats.append((t.decl().get_id(), pos))
                            if t.decl().eq(T.IMUL):
                                pats.append((t.decl().get_id(), [(1 - i, b, o) for i, b, o in pos]))
                    elif t.num_args() == 2 and t.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE):
                        # comparisons bv ~ e with e free of bv: e is a candidate
                        hit = False
                        for x, y in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                            if x.get_id() in bids and y.sort() == I and not any(T.occurs(y, b) for b in red.bv):
                                pats.append(("eq", bids[x.get_id()], y))
                                hit = True
                        if not hit and z3.is_eq(t) and t.arg(0).sort() == I:
                            v = solve_for(t, red.bv)
                            if v is not None:
                                pats.append(("eq", bids[v[0].get_id()], v[1]))
            red._pats = pats
        found = [dict() for _ in red.bv]
        joint = {}
        sub = list(zip(red.params, args))
        for p in pats:
            if p[0] == "eq":
                e = z3.simplify(z3.substitute(p[2], *sub)) if sub else p[2]
                found[p[1]][e.get_id()] = e
                continue
            did, pos = p
            for x in apps.get(did, {}).values():
                vals = {}
                ok = True
                for i, bi, off in pos:
                    g = x.arg(i)
                    if is_z3(off):
                        off = z3.substitute(off, *sub) if sub else off
                        t = z3.simplify(g - off)
                    else:
                        t = g if off == 0 else z3.simplify(g - off)
                    if bi in vals and not vals[bi].eq(t):
                        ok = False
                    vals[bi] = t
                if not ok:
                    continue
                for bi, t in vals.items():
                    found[bi][t.get_id()] = t
                if len(vals) == len(red.bv) and len(red.bv) > 1:
                    tup = tuple(vals[i] for i in range(len(red.bv)))
                    joint[tuple(t.get_id() for t in tup)] = tup
        if len(red.bv) == 1:
            return [(t,) for t in list(found[0].values())[:60]]
        if joint:
            return list(joint.values())[:120]
        prod = itertools.product(*[list(f.values())[:12] for f in found])
        return list(prod)[:120]

    def deep_decls(self, t):
        """declarations occurring in t, looking into the definitions of reductions and of recurrence symbols"""
        out = set()
        work = [d for x in T.terms_of(t) for d in T.decls_in(x)]
        while work:
            d = work.pop()
            if d in out:
                continue
            out.add(d)
            red = self.decl_red.get(d)
            if red is not None:
                for x in T.terms_of(red.body) + [y for n in red.n for y in T.terms_of(n)]:
                    work.extend(T.decls_in(x))
            for f in self.defs.get(d, ()):
                work.extend(T.decls_in(f))
        return out

    def sum(self, ph, bv, body, n):
        """Sum_{0<=bv<n} body, as a function of the placeholders ph; closed forms where they are exact"""
        def fin(t):
            def app(*vals):
                sub = [(p, zi(v)) for p, v in zip(ph, vals)]
                return T.map_terms(t, lambda x: z3.substitute(x, *sub)) if sub else t
            return app
        t = self._sum_term(ph, bv, body, n)
        return fin(t)

    def _sum_term(self, ph, bv, body, n):
        if isinstance(body, XF):
            raise Unsupported("sum over possibly special floats")
        body = T.num(body)
        if T.is_conc(body) and body == 0:
            return body
        if isinstance(n, int) and n <= 8:
            acc = 0
            for i in range(n):
                acc = T.add(acc, T.simp(T.map_terms(body, lambda x: z3.substitute(x, (bv, z3.IntVal(i))))))
            return acc
        bid = bv.decl().get_id()
        free = lambda x: not (is_z3(x) and bid in T.decls_in(x))
        if is_z3(body):
            body = T.unz(z3.substitute(body, (z3.If(z3.IntVal(0) <= bv, bv, z3.IntVal(0)), bv)))
        if free(body):
            m = T.max2(n, 0)
            return T.mul(body, m)
        while z3.is_app_of(body, z3.Z3_OP_ITE) and z3.is_app_of(body.arg(1), z3.Z3_OP_ITE) and all(
                T.is_conc(T.unz(e)) and T.unz(e) == 0 for e in (body.arg(2), body.arg(1).arg(2))):
            body = z3.If(z3.And(body.arg(0), body.arg(1).arg(0)), body.arg(1).arg(1), body.arg(2))
        if z3.is_app_of(body, z3.Z3_OP_ITE):
            inside = [T.zb(le(0, bv)), T.zb(lt(bv, n)), T.zb(not_(le(n, bv)))]
            for c, br in ((body.arg(0), body.arg(1)), (T.not_(body.arg(0)), body.arg(2))):
                conj = self._conj(c)
                if conj and all(any(z3.eq(x, y) for y in inside) for x in conj):
                    return self._sum_term(ph, bv, T.unz(br), n)
            if free(body.arg(0)):
                return ite(body.arg(0), self._sum_term(ph, bv, T.unz(body.arg(1)), n), self._sum_term(ph, bv, T.unz(body.arg(2)), n))
            for th, el, c in ((T.unz(body.arg(1)), T.unz(body.arg(2)), body.arg(0)),
                              (T.unz(body.arg(2)), T.unz(body.arg(1)), T.not_(body.arg(0)))):
                if T.is_conc(el) and el == 0:
                    conj = self._conj(c)
                    for i, a in enumerate(conj):
                        e = self._solve_eq(a, bv)
                        if e is not None:
                            sub = lambda x: T.map_terms(x, lambda y: z3.substitute(y, (bv, e)))
                            g = and_(le(0, e), lt(e, n), *[sub(x) for j, x in enumerate(conj) if j != i])
                            inner = sub(th)
                            return ite(g, inner, 0 if T.is_int(inner) else T.Fraction(0))
                    # a condition that does not depend on bv factors out
                    fr = [x for x in conj if free(x)]
                    if fr and len(fr) < len(conj):
                        rest = and_(*[x for x in conj if not free(x)])
                        inner = self._sum_term(ph, bv, ite(rest, th, 0 if T.is_int(th) else T.Fraction(0)), n)
                        return ite(and_(*fr), inner, 0 if T.is_int(inner) else T.Fraction(0))
                    if fr:
                        inner = self._sum_term(ph, bv, th, n)
                        return ite(and_(*fr), inner, 0 if T.is_int(inner) else T.Fraction(0))
                    r = self._interval(conj, bv, n)
                    if r is not None and free(th):
                        return T.mul(th, T.max2(T.sub(r[1], r[0]), 0))
        if T.is_real(body) and is_z3(body):
            if z3.is_app_of(body, z3.Z3_OP_MUL):
                fs, dens = flat_product(body)
                fr = [c for c in fs if free(c)]
                dr = [c for c in dens if free(c)]
                rest = [c for c in fs if not free(c)]
                drest = [c for c in dens if not free(c)]
                if fr or dr:
                    r = product(rest)
                    for c in drest:
                        r = T.truediv_fin(r, T.unz(c))
                    s = self._sum_term(ph, bv, r, n)
                    if fr:
                        s = T.mul(product(fr), s)
                    for c in dr:
                        s = T.truediv_fin(s, T.unz(c))
                    return s
                if not dens:
                    body = product(rest)
            if z3.is_app_of(body, z3.Z3_OP_DIV) and free(body.arg(1)):
                return T.truediv_fin(self._sum_term(ph, bv, T.unz(body.arg(0)), n), T.unz(body.arg(1)))
            if z3.is_app_of(body, z3.Z3_OP_TO_REAL):
                return T.to_float(self._sum_term(ph, bv, T.unz(body.arg(0)), n))
        if is_z3(body) and (z3.is_app_of(body, z3.Z3_OP_ADD) or z3.is_app_of(body, z3.Z3_OP_SUB)):
            # summands that are conditional on something that does not depend on bv: split
            for x in self._summands(body):
                if z3.is_app_of(x, z3.Z3_OP_ITE) and free(x.arg(0)):
                    a, b = self._assume(body, x.arg(0), True), self._assume(body, x.arg(0), False)
                    return ite(T.unz(x.arg(0)), self._sum_term(ph, bv, a, n), self._sum_term(ph, bv, b, n))
        return self.reduction("sum", list(ph), [bv], body, [n])(*ph)

    @staticmethod
    def _summands(t):
        out, stack = [], [t]
        while stack:
            x = stack.pop()
            if z3.is_app_of(x, z3.Z3_OP_ADD) or z3.is_app_of(x, z3.Z3_OP_SUB):
                stack += x.children()
            else:
                out.append(x)
        return out

    def _assume(self, t, c, val):
        """t (a sum) where the summands' condition c has the value val"""
        if not is_z3(t):
            return t
        if z3.is_app_of(t, z3.Z3_OP_ITE) and z3.eq(t.arg(0), c):
            return self._assume(t.arg(1 if val else 2), c, val)
        if z3.is_app_of(t, z3.Z3_OP_ADD):
            r = self._assume(t.arg(0), c, val)
            for x in t.children()[1:]:
                r = T.add(r, self._assume(x, c, val))
            return r
        if z3.is_app_of(t, z3.Z3_OP_SUB) and t.num_args() == 2:
            return T.sub(self._assume(t.arg(0), c, val), self._assume(t.arg(1), c, val))
        return T.unz(t)

    @staticmethod
    def _conj(c):
        out, stack = [], [c]
        while stack:
            x = stack.pop()
            if isinstance(x, bool):
                if not x:
                    out.append(z3.BoolVal(False))
                continue
            if z3.is_and(x):
                stack.extend(reversed(x.children()))
            elif z3.is_not(x) and z3.is_or(x.arg(0)):
                stack.extend(T.not_(y) for y in reversed(x.arg(0).children()))
            else:
                out.append(x)
        return out

    @staticmethod
    def _solve_eq(a, bv):
        """a is an integer equation with a unique solution bv = e -> e"""
        if not z3.is_eq(a) or a.arg(0).sort() != I:
            return None
        d = z3.simplify(a.arg(0) - a.arg(1))
        bid = bv.decl().get_id()
        for sgn in (1, -1):
            e = z3.simplify(bv - d if sgn == 1 else bv + d)
            if bid not in T.decls_in(e):
                return e
        return None

    @staticmethod
    def _interval(conj, bv, n):
        lo, hi = 0, n
        bid = bv.decl().get_id()
        for a in conj:
            neg = False
            if z3.is_not(a):
                neg, a = True, a.arg(0)
            k = a.decl().kind()
            if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or a.arg(0).sort() != I:
                return None
            l, r = a.arg(0), a.arg(1)
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                l, r = r, l
            strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            if neg:
                l, r, strict = r, l, not strict
            # l <= r (or <)
            d = z3.simplify(r - l)          # d >= 0 (or > 0)
            e1 = z3.simplify(bv - d)        # d = bv - e1
            e2 = z3.simplify(d + bv)        # d = e2 - bv
            if bid not in T.decls_in(e1):
                b = T.unz(e1)
                lo = T.max2(lo, T.add(b, 1) if strict else b)
            elif bid not in T.decls_in(e2):
                b = T.unz(e2)
                hi = T.min2(hi, b if strict else T.add(b, 1))
            else:
                return None
        return lo, hi

    def valid_light(self, pc, goal):
        if isinstance(goal, bool) and goal:
            return True
        forms = [zb(p) for p in pc if p is not True] + [z3.Not(zb(goal))]
        r, _ = self.check(forms, 600)
        return r == z3.unsat

    def check(self, forms, timeout=None, refine=0):
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout_ms)
        s.set("random_seed", 1)
        s.add(*forms)
        t0 = time.time()
        r = s.check()
        for _ in range(refine):
            # refine products / quotients that the model misinterprets
            if r != z3.sat or time.time() - t0 > (timeout or self.timeout_ms) / 1000:
                break
            ref = self.refine(s, forms)
            if not ref:
                break
            s.add(*ref)
            r = s.check()
        self.solver_secs += time.time() - t0
        self.queries += 1
        return r, s

    def linearise(self, forms):
        """replace real products and quotients of unknowns by uninterpreted terms plus true facts about them;
        None if there are none"""
        memo, facts, hit = {}, [], [0]
        z, o = z3.RealVal(0), z3.RealVal(1)
        prods = {}

        def num_val(t):
            return z3.is_rational_value(t) or z3.is_int_value(t)

        def mulf(fs):
            fs = sorted(fs, key=lambda t: t.get_id())
            k = tuple(t.get_id() for t in fs)
            if k in prods:
                return prods[k]
            f = self._rm.get(len(fs))
            if f is None:
                f = self._rm[len(fs)] = z3.Function("rmul%d" % len(fs), *[R] * len(fs), R)
            p = prods[k] = f(*fs)
            facts.append((p == z) == z3.Or(*[t == z for t in fs]))
            if len(fs) == 2:
                a, b = fs
                facts.append(z3.Implies(a == o, p == b))
                facts.append(z3.Implies(b == o, p == a))
                facts.append((p > z) == z3.Or(z3.And(a > z, b > z), z3.And(a < z, b < z)))
            else:
                for j, t in enumerate(fs):
                    facts.append(z3.Implies(t == o, p == mulf(fs[:j] + fs[j + 1:])))
                facts.append(z3.Implies(z3.And(*[t >= z for t in fs]), p >= z))
            return p

        def go(t):
            i = t.get_id()
            if i in memo:
                return memo[i]
            if not z3.is_app(t) or not t.num_args():
                memo[i] = t
                return t
            if t.sort() == R and z3.is_app_of(t, z3.Z3_OP_MUL):
                fs = [go(c) for c in flat_mul(t)]
                c = [x for x in fs if num_val(x)]
                u = [x for x in fs if not num_val(x)]
                if len(u) >= 2:
                    hit[0] += 1
                    r = mulf(u)
                    for x in c:
                        r = x * r
                else:
                    r = fs[0]
                    for x in fs[1:]:
                        r = r * x
            elif t.sort() == R and z3.is_app_of(t, z3.Z3_OP_DIV) and not num_val(t.arg(1)):
                hit[0] += 1
                a, b = go(t.arg(0)), go(t.arg(1))
                r = self._rd(a, b)
                facts.append(z3.Implies(b != z, z3.And((r == z) == (a == z), (r > z) == z3.Or(z3.And(a > z, b > z), z3.And(a < z, b < z)))))
                facts.append(z3.Implies(b == o, r == a))
                facts.append(z3.Implies(z3.And(b > z), z3.And((r <= o) == (a <= b), (r >= o) == (a >= b))))
                if not num_val(a):
                    facts.append(z3.Implies(b != z, mulf([r, b]) == a))
            else:
                ch = [go(c) for c in t.children()]
                r = t if all(x.eq(y) for x, y in zip(ch, t.children())) else t.decl()(*ch)
            memo[i] = r
            return r
        self.keep_lin = forms
        out = [go(f) for f in forms]
        return out + facts if hit[0] else None

    def refine(self, s, forms):
        m = s.model()
        out, seen, stack = [], set(), list(s.assertions())
        while stack:
            x = stack.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            stack.extend(x.children())
            d = x.decl()
            if not (d.eq(T.IMUL) or d.eq(T.IDIV) or d.eq(T.IMOD)):
                continue
            a, b = x.arg(0), x.arg(1)
            va, vb, vx = (m.eval(t, model_completion=True) for t in (a, b, x))
            if not all(z3.is_int_value(v) for v in (va, vb, vx)):
                continue
            ia, ib, ix = va.as_long(), vb.as_long(), vx.as_long()
            if d.eq(T.IMUL):
                if ix != ia * ib:
                    if abs(ia) <= abs(ib):
                        out.append(z3.Implies(a == va, x == ia * b))
                    else:
                        out.append(z3.Implies(b == vb, x == ib * a))
            elif ib > 0:
                want = ia // ib if d.eq(T.IDIV) else ia % ib
                if ix != want:
                    out.append(z3.Implies(b == vb, x == (a / vb if d.eq(T.IDIV) else a % vb)))
            if len(out) > 40:
                break
        return out

    def valid(self, pc, goal, rounds=None, timeout=None, strict=False):
        """quiet validity check"""
        if goal is True:
            return True
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        forms = [zb(p) for p in pc] + [z3.Not(zb(goal))]
        try:
            inst = self.instantiate(forms, rounds, strict=strict)
        except Unsupported:
            return False
        r, _ = self.check(inst, timeout or 4000)
        return r == z3.unsat

    def sat_light(self, forms):
        """cheap feasibility filter: only the path condition itself"""
        fs = [zb(f) for f in forms if f is not True]
        if any(z3.is_false(f) for f in fs):
            return False
        r, _ = self.check(fs, 500)
        return r != z3.unsat

    def prove(self, name, pc, goal, hints=()):
        if self.mute:
            return True
        t0 = time.time()
        detail, model, status = "", None, None
        if goal is True or (is_z3(goal) and z3.is_true(z3.simplify(goal))):
            status = "proved"
            self.obls.append(Obligation(name, self.func, status, time.time() - t0, "by simplification", backend="simplifier"))
            return True
        forms = [zb(p) for p in pc if p is not True] + [zb(h) for h in hints if h is not True] + [z3.Not(zb(goal))]
        r = z3.unknown
        nform = 0
        small = self.relevant(forms[:-1], forms[-1]) + [forms[-1]]
        plan = []
        if self.nsums(forms):
            plan += [(small, 104, 2000), (forms, 106, 4000)]
            if any(self.nested_sum(self.red_by_decl[d]) for d in self.deep_decls(forms[-1]) if d in self.red_by_decl and self.red_by_decl[d].kind == "sum"):
                plan += [(forms, 206, 6000)]
            plan += [(small, -4, 4000), (forms, -4, 8000)]
        if len(small) < len(forms):
            plan += [(small, 2, 3000), (small, self.rounds, 6000), (small, self.rounds + 2, 10000)]
        tm = self.timeout_ms
        plan += [(forms, 2, 5000), (forms, self.rounds, tm), (forms, self.rounds + 2, tm)]
        weak = None
        nbad = sum(o.status != "proved" for o in self.obls)
        late = time.time() > self.deadline
        tried, full = 0, False
        for fs, rounds, tmo in plan:
            if late and tried >= 2:
                break
            tried += 1
            if weak is not None and self.rounds < rounds < 100:
                break
            if weak is not None or nbad:
                tmo = min(tmo, 8000 if nbad < 2 else 3000)
            opaque = rounds // 100 if rounds > 100 else 0   # 1: sums as plain symbols; 2: except sums of terms with sums
            inst = self.instantiate(fs, rounds % 100 if opaque else abs(rounds), strict=rounds < 0 or opaque == 2, opaque=opaque)
            nform = len(inst)
            ab = self.linearise(inst)
            if ab is not None:
                # products and quotients of unknowns as uninterpreted functions with their sign laws: weaker, much faster
                r, s = self.check(ab, min(self.timeout_ms, tmo, 4000))
                if r == z3.unsat:
                    break
            r, s = self.check(inst, min(self.timeout_ms, tmo), 8 if rounds == self.rounds + 2 or fs is forms and rounds == self.rounds else 0)
            if r == z3.unsat:
                break
            full = r == z3.sat and fs is forms and rounds >= self.rounds and not opaque
            if r == z3.sat and rounds == self.rounds + 2 and not opaque:
                weak = s.model()
        if r == z3.unsat:
            status = "proved"
        elif full or weak is not None:
            status = "failed"
            m = s.model() if r == z3.sat else weak
            model = self._model(m)
            detail = "solver found a model of the negated obligation" + ("" if r == z3.sat else " (under the hypotheses it depends on)")
        else:
            status = "unknown"
            detail = s.reason_unknown() if r == z3.unknown else "section time limit"
        backend = "z3"
        if status == "unknown" and "cvc5" in self.backends:
            pass
        self.obls.append(Obligation(name, self.func, status, time.time() - t0, detail, model, nform, backend))
        if status == "proved":
            self.last_query = inst
        return status == "proved"

    def nested_sum(self, red):
        """the body of the sum contains sums"""
        r = getattr(red, "_nested", None)
        if r is None:
            ds = set()
            for x in T.terms_of(red.body):
                ds |= T.decls_in(x)
            red._nested = r = any(d in self.red_by_decl and self.red_by_decl[d].kind == "sum" for d in ds)
        return r

    def nsums(self, forms):
        ds = self.deep_decls(forms[-1])
        return any(d in ds for d, r in self.red_by_decl.items() if r.kind == "sum")

    def relevant(self, hyps, goal):
        """hypotheses that bring in no reduction symbol beyond those the goal refers to"""
        g = self.deep_decls(goal)
        out = []
        for h in hyps:
            if all(d in g or d not in self.decl_red for d in T.decls_in(h)):
                out.append(h)
        return out

    def _model(self, m):
        out = {}
        for d in m.decls():
            if d.arity() == 0:
                nm = d.name()
                if nm.startswith("skc_"):
                    continue
                out[nm] = str(m[d])
        return dict(sorted(out.items())[:80])
