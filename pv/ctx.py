"""Verification context: facts, path condition, binder atoms (sum/all/argmin/select/prod over a
symbolic range) and discharge of verification conditions with z3 (cvc5 as second back end)."""
import z3, time, itertools, subprocess, os, tempfile
from fractions import Fraction
from . import sym as s
from .sym import Sym, S, R, And, Or, Not, Implies, toz3b, unwrap, Unsupported

I = z3.IntSort(); RL = z3.RealSort(); B = z3.BoolSort()

class PathEnd(Exception):
    """the current path is infeasible"""

class Template(object):
    __slots__ = ('pidx', 'hasb', 'kind', 'n', 'b', 'body', 'params', 'f', 'aux', 'key')

def iterms(e, seen=None, out=None):
    """all subterms"""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen: continue
        seen.add(i); out.append(t)
        if z3.is_app(t): stack.extend(t.children())
    return out

def idx(x):
    """python int / z3 Int -> z3 Int"""
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Sym): return x.e
    return x

class Ctx(object):
    cur = None
    def __init__(self, timeout=8000):
        self.facts = []        # ground z3 facts (assumptions, definitions)
        self.foralls = []      # (ranges, fn): quantified assumptions
        self.path = []         # path condition
        self.counter = {}
        self.templates = {}
        self.bydecl = {}       # decl name -> template
        self.depth = 0
        self.timeout = timeout
        self.obligations = []  # records
        self.nq = 0
        self.solver_s = 0.
        self.keep = []
        self.cache = {}
        self.hv = []
        self.tdecl, self.par, self.trgc, self.typed = {}, {}, {}, True     # index classes (relevance filter for instantiation)
        self.zerosum = False   # axiom: a non-zero sum has a non-zero term
        self.sumw = set()     # witness symbols of sums and products
        self.hints = []        # goal-specific lemma instances (z3 terms proved separately)
        Ctx.cur = self
        s.CANON[0] = self.canon

    def fork(self):
        """fresh path: keep templates and caches"""
        self.facts, self.foralls, self.path = [], [], []
        self.counter = {}
        self.hv = []; self.depth = 0; self.pairs = []

    # -- names
    def fresh(self, name, sort=I):
        k = self.counter.get(name, 0); self.counter[name] = k + 1
        return z3.Const('%s!%d' % (name, k), sort)
    def freshfun(self, name, *sorts):
        k = self.counter.get(name, 0); self.counter[name] = k + 1
        return z3.Function('%s!%d' % (name, k), *sorts)

    # -- assumptions
    def assume(self, f):
        if f is True: return
        if f is False: self.facts.append(z3.BoolVal(False)); return
        self.facts.append(f)
    def assume_all(self, ranges, fn):
        self.foralls.append((ranges, fn))

    # -- binder atoms ----------------------------------------------------------------
    def _template(self, kind, n, b, body):
        """find or create the symbol for binder `kind` over b in [0,n) of `body` (a z3 term);
        returns (template, argument terms)"""
        n = idx(n)
        params = []
        seen = set()
        def walk(t):
            # every index (sub)term that does not mention the bound variable becomes a parameter
            st = [t]
            while st:
                u = st.pop()
                if u.get_id() in seen: continue
                seen.add(u.get_id())
                if z3.is_int(u):
                    if u.eq(b) or z3.is_int_value(u): continue
                    if not self.occurs(b, u): params.append(u); continue
                if z3.is_const(u):
                    if u.decl().kind() == z3.Z3_OP_UNINTERPRETED and (u.decl().name().startswith('ph!') or u.decl().name().startswith('p!')): params.append(u)
                elif z3.is_app(u):
                    st.extend(reversed(u.children()))
        walk(body); walk(n)
        sub = [(b, z3.Const('?b', I))]
        can = []
        for i, p in enumerate(params):
            c = z3.Const('?p%d_%s' % (i, p.sort()), p.sort()); can.append(c); sub.append((p, c))
        cbody = z3.substitute(body, *sub); cn = z3.substitute(n, *sub)
        key = (kind, cbody.sexpr(), cn.sexpr())
        t = self.templates.get(key)
        if t is None:
            t = Template()
            t.kind, t.n, t.b, t.body, t.params, t.key = kind, cn, sub[0][1], cbody, can, key
            k = len(self.templates)
            srt = [c.sort() for c in can]
            if kind in ('sum', 'prod'): t.f = z3.Function('%s%d' % (kind, k), *(srt + [RL]))
            elif kind == 'all': t.f = z3.Function('all%d' % k, *(srt + [B]))
            elif kind in ('argmin', 'argmax', 'wit', 'cnt'): t.f = z3.Function('%s%d' % (kind, k), *(srt + [I]))
            else: raise Unsupported(kind)
            t.aux = {}
            t.aux['w'] = z3.Function('w%d' % k, *(srt + [I]))
            t.aux['w0'] = z3.Function('w0!%d' % k, *(srt + [I]))
            t.aux['sel'] = z3.Function('sel%d' % k, *(srt + [I, I]))
            t.aux['inv'] = z3.Function('inv%d' % k, *(srt + [I, I]))
            self.templates[key] = t
            if kind in ('sum', 'prod'): self.sumw |= {'w%d' % k, 'w0!%d' % k}
            for nm, role in ((t.f.name(), 'f'), ('w%d' % k, 'w'), ('w0!%d' % k, 'w'), ('sel%d' % k, 'sel'), ('inv%d' % k, 'inv')): self.tdecl[nm] = (t, role)
            self._classify(t)
            for nm in (t.f.name(), 'sel%d' % k, 'inv%d' % k): self.bydecl[nm] = t
        return t, params

    # index classes: which argument positions of which symbols can hold the same kind of index.  Only a relevance
    # filter: an instantiation that is skipped can make a proof fail, never succeed.
    def find(self, x):
        par = self.par
        r = x
        while r in par: r = par[r]
        while x != r: par[x], x = r, par[x]
        return r
    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b: self.par[a] = b
    def _argnode(self, nm, i):
        td = self.tdecl.get(nm)
        if td is None: return (nm, i)
        tm, role = td
        if i < len(tm.params): return (tm.key, 'p', i) if i in tm.pidx else None
        return (tm.key, 'k') if role == 'sel' else (tm.key, 'b')
    def _leafnode(self, a, env):
        if a.num_args() == 0:
            return env.get(a.get_id()) or ('c', a.decl().name())
        td = self.tdecl.get(a.decl().name())
        if td is None: return (a.decl().name(), 'r')
        tm, role = td
        if role == 'inv': return (tm.key, 'k')
        if role == 'f' and tm.kind not in ('argmin', 'argmax'): return None
        return (tm.key, 'b')
    def _note(self, t, env):
        """union the classes met in one application; -> [(node, index term)]"""
        nm = t.decl().name(); out = []
        for i, a in enumerate(t.children()):
            if not z3.is_int(a): continue
            nd = self._argnode(nm, i)
            if nd is None: continue
            out.append((nd, a))
            st = [a]
            while st:
                u = st.pop()
                if z3.is_int_value(u) or not z3.is_app(u): continue
                if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    ln = self._leafnode(u, env)
                    if ln is not None: self.union(nd, ln)
                else: st.extend(c for c in u.children() if z3.is_int(c))
        return out
    def _classify(self, tm):
        ids = {p.get_id(): i for i, p in enumerate(tm.params)}
        env = {tm.b.get_id(): (tm.key, 'b')}
        used = set()
        apps = [u for u in iterms(tm.body) if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.num_args() > 0]
        for u in apps:
            for i, a in enumerate(u.children()):
                if z3.is_int(a) and self._argnode(u.decl().name(), i) is not None:
                    for x in iterms(a):
                        if x.get_id() in ids: used.add(ids[x.get_id()])
        tm.pidx = used
        for i, p in enumerate(tm.params): env[p.get_id()] = (tm.key, 'p', i)
        tm.hasb = False
        for u in apps:
            for nd, a in self._note(u, env):
                if any(x.eq(tm.b) for x in iterms(a)): tm.hasb = True

    def bound(self):
        c = z3.Const('#%d' % self.depth, I)
        return c

    def inst(self, t, args, j, what='body'):
        sub = [(p, a) for p, a in zip(t.params, args)]
        if j is not None: sub.append((t.b, idx(j)))
        e = t.body if what == 'body' else t.n
        return z3.substitute(e, *sub) if sub else e

    def _body(self, fn, n=None):
        b = self.bound(); self.depth += 1
        plen = len(self.path)
        if n is not None: self.path.append(z3.And(b >= 0, b < idx(n)))
        try: v = fn(b)
        finally:
            self.depth -= 1
            del self.path[plen:]
        return b, v

    # -- nondeterministic values (outputs of external code): functions of the enclosing binders ------
    def havoc(self, name, *sorts):
        """fresh symbol; inside a generic iteration it is a function of the iteration indices.
        returns a python function of the remaining arguments"""
        if not self.hv:
            if len(sorts) == 1:
                c = self.fresh(name, sorts[0]); return lambda: c
            f = self.freshfun(name, *sorts); return lambda *a: f(*[idx(x) for x in a])
        site = self.hv[-1]
        site[2] += 1
        f = z3.Function('%s@%s.%d' % (name, site[0], site[2]), *([I] * len(site[1]) + list(sorts)))
        bs = [idx(b) for b in site[1]]
        return lambda *a: f(*(bs + [idx(x) for x in a]))
    def site(self):
        self.nsite = getattr(self, 'nsite', 0) + 1
        return '%s' % self.nsite
    def push_binder(self, site, b):
        self.hv.append([site, (self.hv[-1][1] if self.hv else []) + [b], 0])
    def pop_binder(self): self.hv.pop()
    def learn(self, f):
        """assumption made at a program point: holds under the current path"""
        self.assume(Implies(And(*self.path), f))
    def learn_all(self, ranges, fn):
        p = And(*self.path)
        self.assume_all(ranges, (lambda *i: Implies(p, fn(*i))) if p is not True else fn)

    def sum_(self, n, fn):
        """sum_{0<=j<n} fn(j)"""
        if isinstance(n, int):
            r = 0
            for j in range(n): r = s.add(r, fn(j))
            return r
        b, v = self._body(fn, n)
        v = S(v)
        pi = ni = na = False
        if not v.plain:
            rng = And(b >= 0, b < n)
            bad = Or(v.pi, v.ni, v.na)
            if not self.refutable(And(rng, bad)):
                ex = lambda f: Not(self.all_(n, lambda j: Not(z3.substitute(toz3b(f), (b, idx(j))))))
                pi_, ni_, na_ = ex(v.pi), ex(v.ni), ex(v.na)
                na = Or(na_, And(pi_, ni_)); pi = And(pi_, Not(na)); ni = And(ni_, Not(na))
        e = self._sum_expand(n, b, R(v.e))
        return s.mk(e, pi, ni, na)

    def _sum_expand(self, n, b, e):
        mons = self.poly(e)
        total = None
        groups = {}
        for mon, c in mons.items():
            outer, inner = [], []
            for aid, k in mon:
                a = self.atoms[aid]
                (inner if self.occurs(b, a) else outer).extend([a] * k)
            okey = tuple(sorted(a.get_id() for a in outer))
            inner.sort(key=lambda a: a.sexpr())
            ikey = tuple(a.get_id() for a in inner)
            groups.setdefault(ikey, (inner, []))[1].append((c, outer))
        terms = []
        for ikey, (inner, outs) in groups.items():
            st = self._sum_mono(n, b, inner)
            for c, outer in outs:
                t = st
                for o in outer: t = t * o
                terms.append(s.const(Fraction(c)) * t if c != 1 else t)
        if not terms: return z3.RealVal(0)
        r = terms[0]
        for t in terms[1:]: r = r + t
        return r

    def _sum_mono(self, n, b, inner):
        """Sum of a product of b-dependent atoms"""
        if not inner: return z3.ToReal(idx(n))
        # delta elimination:  If(b == t, x, 0) * rest
        for i, a in enumerate(inner):
            if z3.is_app_of(a, z3.Z3_OP_ITE):
                c, x, y = a.children()
                t = self._eqb(c, b)
                if t is not None and unwrap(y) == 0:
                    rest = [x] + [q for k, q in enumerate(inner) if k != i]
                    e = rest[0]
                    for q in rest[1:]: e = e * q
                    e = z3.substitute(e, (b, t))
                    return z3.If(z3.And(t >= 0, t < idx(n)), R(e), z3.RealVal(0))
                rest = [q for k, q in enumerate(inner) if k != i]
                def with_(x):
                    e = R(x)
                    for q in rest: e = e * q
                    return self._sum_expand(n, b, e)
                if not self.occurs(b, c):
                    return z3.If(c, with_(x), z3.RealVal(0) if unwrap(y) == 0 else with_(y))
                if self._inrange(c, b, n): return with_(x)
        body = inner[0]
        for q in inner[1:]: body = body * q
        t, args = self._template('sum', n, b, body)
        return t.f(*args) if args else t.f()

    def _inrange(self, c, b, n):
        """c holds for every 0 <= b < n, by form"""
        if z3.is_and(c): return all(self._inrange(q, b, n) for q in c.children())
        if z3.is_lt(c) and c.arg(0).eq(b): return c.arg(1).eq(idx(n))
        if z3.is_ge(c) and c.arg(0).eq(b): return unwrap(c.arg(1)) == 0
        if z3.is_le(c) and c.arg(1).eq(b): return unwrap(c.arg(0)) == 0
        return False

    def _eqb(self, c, b):
        """c is  b == t  (t free of b) -> t"""
        if z3.is_eq(c):
            x, y = c.children()
            if x.eq(b) and not self.occurs(b, y): return y
            if y.eq(b) and not self.occurs(b, x): return x
        return None

    def occurs(self, b, e):
        k = (b.get_id(), e.get_id())
        r = self.cache.get(k)
        if r is None:
            r = any(t.eq(b) for t in iterms(e))
            self.cache[k] = r; self.keep.append(e); self.keep.append(b)
        return r

    atoms = {}
    def poly(self, e, limit=400):
        """polynomial normal form {((atom_id, exp),...): coeff}"""
        k = ('poly', e.get_id())
        r = self.cache.get(k)
        if r is not None: return r
        v = unwrap(e.arg(0)) if z3.is_to_real(e) else unwrap(e)
        if v is not None:
            r = {(): Fraction(v)} if v != 0 else {}
        elif z3.is_add(e):
            r = {}
            for c in e.children():
                for m, q in self.poly(c).items():
                    r[m] = r.get(m, 0) + q
                    if r[m] == 0: del r[m]
        elif z3.is_sub(e):
            ch = e.children()
            r = dict(self.poly(ch[0]))
            for c in ch[1:]:
                for m, q in self.poly(c).items():
                    r[m] = r.get(m, 0) - q
                    if r[m] == 0: del r[m]
        elif z3.is_app_of(e, z3.Z3_OP_UMINUS):
            r = {m: -q for m, q in self.poly(e.arg(0)).items()}
        elif z3.is_mul(e):
            r = {(): Fraction(1)}
            for c in e.children():
                p = self.poly(c)
                new = {}
                for m1, q1 in r.items():
                    for m2, q2 in p.items():
                        m = self._mmul(m1, m2)
                        new[m] = new.get(m, 0) + q1 * q2
                        if new[m] == 0: del new[m]
                r = new
                if len(r) > limit: r = None; break
            if r is None: r = self._atom(e)
        elif z3.is_div(e):
            den = e.arg(1)
            if not (unwrap(e.arg(0)) == 1):
                inv = z3.RealVal(1) / den
                dv = unwrap(den)
                if dv is not None and dv != 0: p2 = {(): 1 / Fraction(dv)}
                else: p2 = self._atom(inv)
                r = {}
                for m1, q1 in self.poly(e.arg(0)).items():
                    for m2, q2 in p2.items():
                        m = self._mmul(m1, m2); r[m] = r.get(m, 0) + q1 * q2
                        if r[m] == 0: del r[m]
            else: r = self._atom(e)
        elif z3.is_to_real(e) and (z3.is_add(e.arg(0)) or z3.is_mul(e.arg(0)) or z3.is_sub(e.arg(0))):
            a = e.arg(0)
            ch = [z3.ToReal(c) for c in a.children()]
            t = ch[0]
            for c in ch[1:]:
                t = t + c if z3.is_add(a) else (t - c if z3.is_sub(a) else t * c)
            r = self.poly(t)
        elif z3.is_app_of(e, z3.Z3_OP_POWER) and unwrap(e.arg(1)) is not None and unwrap(e.arg(1)) == int(unwrap(e.arg(1))) and 0 < unwrap(e.arg(1)) < 10:
            t = e.arg(0)
            x = t
            for _ in range(int(unwrap(e.arg(1))) - 1): x = x * t
            r = self.poly(x)
        else: r = self._atom(e)
        self.cache[k] = r; self.keep.append(e)
        return r

    def canon(self, e, limit=60):
        p = self.poly(e)
        if len(p) > limit: return e
        def ax(i):
            a = self.atoms[i]; k = ('sx', i)
            if k not in self.cache: self.cache[k] = a.sexpr()
            return self.cache[k]
        mons = sorted((tuple(sorted((ax(i), k, i) for i, k in m)), c) for m, c in p.items())
        r = None
        for m, c in mons:
            t = None
            for _, k, i in m:
                for _ in range(k): t = R(self.atoms[i]) if t is None else t * R(self.atoms[i])
            if t is None: t = s.const(Fraction(c))
            elif c != 1: t = s.const(Fraction(c)) * t
            r = t if r is None else r + t
        return z3.RealVal(0) if r is None else r
    def _atom(self, e):
        v = unwrap(e)
        if v is not None: return {(): Fraction(v)} if v else {}
        self.atoms[e.get_id()] = e; self.keep.append(e)
        return {((e.get_id(), 1),): Fraction(1)}

    def _mmul(self, a, b):
        d = dict(a)
        for k, v in b: d[k] = d.get(k, 0) + v
        return tuple(sorted(d.items()))

    def prod_(self, n, fn):
        if isinstance(n, int):
            r = 1
            for j in range(n): r = s.mul(r, fn(j))
            return r
        b, v = self._body(fn, n); v = S(v)
        if not v.plain:
            if not self.refutable(And(b >= 0, b < n, Or(v.pi, v.ni, v.na))): raise Unsupported('product of non-finite values')
        return s.mk(self._prod(n, b, R(v.e)))

    def _prod(self, n, b, e):
        """prod_{0<=b<n} e: conditions free of the index are hoisted, factors split, point updates collapsed"""
        e = assume_ite(e, ())
        if unwrap(e) == 1: return z3.RealVal(1)
        c = self._free_cond(b, e)
        if c is not None:
            return z3.If(c, self._prod(n, b, assume_ite(e, ((c, True),))), self._prod(n, b, assume_ite(e, ((c, False),))))
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            c, x, y = e.children()
            if unwrap(y) == 1:
                t = self._eqb(c, b)
                if t is not None: return z3.If(z3.And(t >= 0, t < idx(n)), z3.substitute(x, (b, t)), z3.RealVal(1))
        if z3.is_mul(e):
            r = [self._prod(n, b, c) for c in e.children()]
            p = r[0]
            for q in r[1:]: p = p * q
            return p
        t, args = self._template('prod', n, b, e)
        return t.f(*args) if args else t.f()

    def _free_cond(self, b, e):
        if not self.occurs(b, e): return None
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            c = e.arg(0)
            for q in (c.children() if z3.is_and(c) else [c]):
                if not self.occurs(b, q): return q
        if z3.is_app_of(e, z3.Z3_OP_ITE) or z3.is_mul(e) or z3.is_add(e):
            for x in e.children():
                if not z3.is_bool(x):
                    c = self._free_cond(b, x)
                    if c is not None: return c
        return None

    def all_(self, n, fn):
        """forall 0<=j<n. fn(j)   as a (defined) Boolean term"""
        if isinstance(n, int):
            return And(*[fn(j) for j in range(n)])
        b, v = self._body(fn, n)
        if v is True: return True
        v = toz3b(v)
        if not self.occurs(b, v): return Or(Not(v) if False else v, idx(n) <= 0)
        if z3.is_and(v):
            return And(*[self.all_(n, (lambda c: lambda j: z3.substitute(c, (b, idx(j))))(c)) for c in v.children()])
        t, args = self._template('all', n, b, v)
        return t.f(*args) if args else t.f()

    def any_(self, n, fn):
        return Not(self.all_(n, lambda j: Not(fn(j))))

    def argext(self, kind, n, fn):
        """index of the (first) minimum / maximum; fn may be extended-real valued"""
        b, v = self._body(fn, n); v = S(v)
        if v.na is not False and not self.refutable(And(b >= 0, b < idx(n), v.na)): raise Unsupported('min/max with possible nan')
        # encode the extended value in the template body through a pairing of flags
        body = z3.If(toz3b(v.pi), z3.RealVal(1), z3.If(toz3b(v.ni), z3.RealVal(-1), z3.RealVal(0)))
        if v.pi is False and v.ni is False: code = R(v.e)
        else: code = z3.Function('ext', RL, RL, RL)(body, R(v.e))
        t, args = self._template(kind, n, b, code)
        return t.f(*args) if args else t.f()

    def extdec(self, code):
        """decode an argmin/argmax template body into a Sym"""
        if z3.is_app(code) and code.decl().name() == 'ext':
            c = code.arg(0)
            return Sym(code.arg(1), c == 1, c == -1, False)
        return Sym(code)

    selall = False
    parts = False
    singles = ()       # index terms for which 'all other terms vanish' is considered
    def select(self, n, fn):
        """selection of {j : fn(j)}; returns (count, sel, inv)"""
        b, v = self._body(fn, n)
        v = toz3b(v)
        if self.selall:                     # a mask that is true everywhere selects everything
            self.path.append(z3.And(b >= 0, b < idx(n)))
            try: al = self.refutable(z3.Not(v), timeout=4000)
            finally: self.path.pop()
            if al: return n, (lambda k: idx(k)), (lambda i: idx(i))
        t, args = self._template('cnt', n, b, v)
        cnt = t.f(*args) if args else t.f()
        def sel(k):
            k = idx(k)
            if z3.is_app(k) and k.decl().name() == t.aux['inv'].name() and all(x.eq(y) for x, y in zip(k.children()[:-1], args)):
                return k.children()[-1]
            return t.aux['sel'](*(list(args) + [k]))
        def inv(i): return t.aux['inv'](*(list(args) + [idx(i)]))
        return cnt, sel, inv

    # -- discharge --------------------------------------------------------------------
    def _ground(self, fs, rounds=2, ext=True, maxinst=6000):
        """close a set of ground formulas under on-demand binder axioms and instantiation"""
        out = []
        outset = set()
        seen = set()
        apps = {}        # binder apps: id -> (template, app)
        idxterms = {}
        cands = {}
        def byclass():
            r = {}
            for nd, c in cands.items(): r.setdefault(self.find(nd), {}).update(c)
            return {k: list(c.values()) for k, c in r.items()}
        ufapps = {}      # name -> list of apps
        mathapps = {}
        work = []
        def push(f):
            if f is True: return
            if len(out) > 8000: return        # fewer instances only weaken the query
            f = toz3b(f)
            if f.get_id() in outset: return
            if z3.is_true(f): return
            outset.add(f.get_id()); out.append(f); self.keep.append(f); work.append(f)
        newapps = []; newidx = []; newsel = []; newmath = []
        def scan():
            while work:
                f = work.pop()
                for t in iterms(f, seen):
                    if not z3.is_app(t): continue
                    d = t.decl()
                    if d.kind() != z3.Z3_OP_UNINTERPRETED: continue
                    nm = d.name()
                    if nm in self.bydecl:
                        tm = self.bydecl[nm]
                        if nm == tm.f.name():
                            if t.get_id() not in apps: apps[t.get_id()] = (tm, t); newapps.append((tm, t))
                        else: newsel.append((tm, t, 'sel' if nm.startswith('sel') else 'inv'))
                    if nm in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'arctan', 'pow') and t.num_args() > 0:
                        newmath.append(t)
                    if nm == 'pi' and t.num_args() == 0: push(z3.And(t > z3.Q(314159, 100000), t < z3.Q(31416, 10000)))
                    if t.num_args() > 0:
                        ufapps.setdefault(nm, []).append(t)
                        for nd, a in self._note(t, {}):
                            cands.setdefault(nd, {})[a.get_id()] = a
                            if self.parts and z3.is_add(a):      # parts of an offset index are candidates too
                                for c in a.children():
                                    if not z3.is_int_value(c): cands[nd][c.get_id()] = c
                        for a in t.children():
                            if z3.is_int(a) and a.get_id() not in idxterms:
                                idxterms[a.get_id()] = a; newidx.append(a)
        for f in fs: push(f)
        scan()
        done = set()
        allfor = []     # (template, app) true-all facts to instantiate
        ninst = [0]
        selterms = {}
        for rnd in range(rounds + 1):
            if getattr(self, 'dbg', False): print('    round', rnd, 'formulas', len(out), 'apps', len(apps), 'idx', len(idxterms), [str(x)[:60] for x in list(idxterms.values())[:12]], 'all', len(allfor), 'inst', ninst, flush=True)
            na, newapps[:] = list(newapps), []
            ns, newsel[:] = list(newsel), []
            nm_, newmath[:] = list(newmath), []
            for tm, t in na:
                args = t.children()
                n = self.inst(tm, args, None, 'n')
                w = tm.aux['w'](*args) if args else tm.aux['w']()
                inr = z3.And(w >= 0, w < n)
                if tm.kind == 'all':
                    push(z3.Or(t, z3.And(inr, z3.Not(self.inst(tm, args, w)))))
                    allfor.append((tm, t))
                elif tm.kind == 'sum':
                    push(z3.Or(n > 0, t == 0))
                    bd = self.inst(tm, args, w)
                    if s.is_nonneg(bd):
                        push(t >= 0)
                        if ext: allfor.append((tm, t))      # every term is at most the sum
                    elif ext:
                        push(z3.Or(t >= 0, z3.And(inr, bd < 0)))
                        if self.zerosum:
                            w0 = tm.aux['w0'](*args) if args else tm.aux['w0']()
                            push(z3.Or(t == 0, z3.And(w0 >= 0, w0 < n, self.inst(tm, args, w0) != 0)))
                if tm.kind == 'sum':
                    for a in (self.singles if rnd == 0 else ()):          # a sum with at most one nonzero term
                        ws = z3.Const('ws!%d!%d' % (t.get_id(), a.get_id()), I); self.keep.append(t)
                        push(z3.Or(a < 0, a >= n, t == self.inst(tm, args, a), z3.And(ws >= 0, ws < n, ws != a, self.inst(tm, args, ws) != 0)))
                elif tm.kind == 'prod':
                    push(z3.Or(n > 0, t == 1))
                    bd = self.inst(tm, args, w)
                    push(z3.Or(t > 0, z3.And(inr, bd <= 0)))
                elif tm.kind == 'cnt':
                    push(t >= 0); push(t <= z3.If(n >= 0, n, 0))
                    s0 = tm.aux['sel'](*(args + [z3.IntVal(0)]))
                    push(z3.Or(t <= 0, z3.And(s0 >= 0, s0 < n, self.inst(tm, args, s0))))
                    allfor.append((tm, t))
                elif tm.kind in ('argmin', 'argmax'):
                    push(z3.Or(n <= 0, z3.And(t >= 0, t < n)))
                    allfor.append((tm, t))
            for tm, t, kind in ns:
                args = t.children()[:-1]; k = t.children()[-1]
                n = self.inst(tm, args, None, 'n')
                cnt = tm.f(*args) if args else tm.f()
                if kind == 'sel':
                    push(z3.Or(z3.Not(z3.And(k >= 0, k < cnt)), z3.And(t >= 0, t < n, self.inst(tm, args, t))))
                    lst = selterms.setdefault((tm.key, tuple(a.get_id() for a in args)), [])
                    for (k2, t2) in lst:
                        g = z3.And(k >= 0, k < cnt, k2 >= 0, k2 < cnt)
                        push(z3.Or(z3.Not(g), z3.And((k < k2) == (t < t2), (k == k2) == (t == t2))))
                    lst.append((k, t))
                    # injectivity through inv
                    iv = tm.aux['inv'](*(args + [t]))
                else:
                    sl = tm.aux['sel'](*(args + [t]))
                    g = z3.And(k >= 0, k < n, self.inst(tm, args, k))
                    push(z3.Or(z3.Not(g), z3.And(t >= 0, t < cnt, sl == k)))
            for t in nm_:
                self._mathax(t, push, mathapps)
            scan()
            # instantiate quantified facts
            T = list(idxterms.values())
            C = byclass()
            def cand(nodes):
                if not self.typed or not nodes: return T
                r = {}
                for nd in nodes:
                    for a in C.get(self.find(nd), ()): r[a.get_id()] = a
                return list(r.values())
            for fi, (ranges, fn) in enumerate(self.foralls):
                for tup in self._tuples(ranges, fn, fi, T, ufapps, cand):
                    kk = ('F', fi) + tuple(x.get_id() for x in tup)
                    if kk in done: continue
                    done.add(kk); ninst[0] += 1
                    if ninst[0] > maxinst: break
                    g = And(*[And(a >= idx(lo), a < idx(hi)) for a, (lo, hi) in zip(tup, ranges)])
                    push(Implies(g, fn(*tup)))
            for tm, t in list(allfor):
                args = t.children(); n = self.inst(tm, args, None, 'n')
                for a in (cand([(tm.key, 'b')]) if tm.hasb else T):
                    kk = ('A', t.get_id(), a.get_id())
                    if kk in done: continue
                    done.add(kk); ninst[0] += 1
                    if ninst[0] > maxinst: break
                    inr = z3.And(a >= 0, a < n)
                    if tm.kind == 'all':
                        push(z3.Or(z3.Not(t), z3.Not(inr), self.inst(tm, args, a)))
                    elif tm.kind == 'sum':
                        push(z3.Or(z3.Not(inr), t >= self.inst(tm, args, a)))
                    elif tm.kind == 'cnt':
                        push(z3.Or(z3.Not(inr), z3.Not(self.inst(tm, args, a)), t > 0))
                        if not any(z3.is_app(u) and (u.decl().name()[:3] in ('sel', 'inv') or u.decl().name() in self.sumw) for u in iterms(a)):
                            # the selected positions cover every index that satisfies the predicate
                            iv = tm.aux['inv'](*(args + [a])); sl = tm.aux['sel'](*(args + [iv]))
                            push(z3.Or(z3.Not(inr), z3.Not(self.inst(tm, args, a)), z3.And(iv >= 0, iv < t, sl == a)))
                    else:
                        vm, va = self.extdec(self.inst(tm, args, t)), self.extdec(self.inst(tm, args, a))
                        if tm.kind == 'argmin': c = And(s.le(vm, va), Or(a >= t, s.lt(vm, va)))
                        else: c = And(s.ge(vm, va), Or(a >= t, s.gt(vm, va)))
                        push(Or(Not(inr), c))
            scan()
            if ext and rnd < 2:
                sums = [(tm, t) for tm, t in apps.values() if tm.kind in ('sum', 'prod')]
                if len(sums) <= 24:
                    for (t1, a1), (t2, a2) in itertools.combinations(sums, 2):
                        kk = ('E', min(a1.get_id(), a2.get_id()), max(a1.get_id(), a2.get_id()))
                        if kk in done or t1.kind != t2.kind: continue
                        done.add(kk)
                        if t1 is t2 and not any(True for _ in t1.params): continue
                        g1, g2 = a1.children(), a2.children()
                        n1, n2 = self.inst(t1, g1, None, 'n'), self.inst(t2, g2, None, 'n')
                        if not n1.eq(n2):
                            nn = z3.simplify(n2 - n1)
                            if t1 is t2 and unwrap(nn) in (1, -1):
                                lo, hi, nlo, glo = (a1, a2, n1, g1) if unwrap(nn) == 1 else (a2, a1, n2, g2)
                                bd = self.inst(t1, glo, nlo)
                                push(z3.Or(nlo < 0, hi == (lo + bd if t1.kind == 'sum' else lo * bd)))
                            continue
                        w = z3.Const('we!%d!%d' % kk[1:], I)
                        b1, b2 = self.inst(t1, g1, w), self.inst(t2, g2, w)
                        if not self._related(b1, b2): continue
                        push(z3.Or(a1 == a2, z3.And(w >= 0, w < n1, b1 != b2)))
                    scan()
            if not newapps and not newsel and not newmath and rnd > 0: break
        return out

    def _related(self, a, b):
        fa = set(t.decl().name() for t in iterms(a) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED)
        fb = set(t.decl().name() for t in iterms(b) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED)
        fa = {x for x in fa if not x.startswith('we!')}; fb = {x for x in fb if not x.startswith('we!')}
        return bool(fa & fb) or not fa or not fb

    def _tuples(self, ranges, fn, fi, T, ufapps, cand):
        # trigger matching: evaluate the body at placeholder indices and match its UF applications
        ck = ('trig', id(fn))
        if ck not in self.cache:
            cs = [z3.Const('?q%d' % i, I) for i in range(len(ranges))]
            body = toz3b(fn(*cs))
            trg = []
            for t in iterms(body):
                if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    pos = {}
                    for i, a in enumerate(t.children()):
                        for k, c in enumerate(cs):
                            if a.eq(c): pos.setdefault(k, i)
                    if pos: trg.append((t.decl().name(), pos))
            env = {c.get_id(): ('q', id(fn), k) for k, c in enumerate(cs)}
            has = set()
            for t in iterms(body):
                if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    for nd, a in self._note(t, env):
                        for x in iterms(a):
                            if x.get_id() in env: has.add(env[x.get_id()])
            self.cache[ck] = (fn, trg, has, cs)
        _, trg, has, _c = self.cache[ck]
        if len(ranges) == 1:
            for a in (cand([('q', id(fn), 0)]) if ('q', id(fn), 0) in has else T): yield (a,)
            return
        full = [t for t in trg if len(t[1]) == len(ranges)]
        if full:
            for nm, pos in full:
                for a in ufapps.get(nm, []):
                    ch = a.children()
                    yield tuple(ch[pos[k]] for k in range(len(ranges)))
            return
        cands = []
        for k in range(len(ranges)):
            c = {}
            for nm, pos in trg:
                if k in pos:
                    for a in ufapps.get(nm, []): x = a.children()[pos[k]]; c[x.get_id()] = x
            nd = ('q', id(fn), k)
            cands.append(list(c.values()) if c else cand([nd]) if nd in has else T)
        n = 0
        for tup in itertools.product(*cands):
            n += 1
            if n > 1500: return
            yield tup

    def _mathax(self, t, push, mathapps):
        nm = t.decl().name(); a = t.arg(0)
        if nm == 'sqrt':
            push(z3.Or(a < 0, z3.And(t >= 0, t * t == a)))
        elif nm == 'exp':
            push(t > 0)
            push(z3.Or(a < 0, t >= 1 + a))
            push(z3.Or(a > 0, t <= 1)); push(z3.Or(a < 0, t >= 1))
            if z3.is_app(a) and a.decl().name() == 'log': push(z3.Or(a.arg(0) <= 0, t == a.arg(0)))
        elif nm == 'log':
            if z3.is_app(a) and a.decl().name() == 'exp': push(t == a.arg(0))
            push(z3.Or(a <= 0, z3.And((t > 0) == (a > 1), (t == 0) == (a == 1))))
        elif nm in ('sin', 'cos'):
            push(z3.And(t <= 1, t >= -1))
            o = s.uf('cos' if nm == 'sin' else 'sin')(a)
            push(t * t + o * o == 1)
        lst = mathapps.setdefault(nm, [])
        for o in lst:
            if nm in ('exp',): push((t < o) == (a < o.arg(0)))
            elif nm == 'sqrt': push(z3.Or(a < 0, o.arg(0) < 0, z3.And((t < o) == (a < o.arg(0)), (t == o) == (a == o.arg(0)))))
            elif nm == 'log': push(z3.Or(a <= 0, o.arg(0) <= 0, z3.And((t < o) == (a < o.arg(0)), (t == o) == (a == o.arg(0)))))
        lst.append(t)

    def check(self, fs, timeout=None, rounds=2, ext=True):
        """satisfiability of facts+path+fs.  'unsat' | 'sat' | 'unknown'"""
        g = self._ground(list(self.facts) + list(self.path) + list(fs), rounds=rounds, ext=ext)
        t0 = time.time()
        sol = z3.Solver()
        sol.set('timeout', timeout or self.timeout)
        for f in g: sol.add(f)
        r = sol.check()
        self.nq += 1
        self.solver_s += time.time() - t0
        self.last_model = sol.model() if r == z3.sat else None
        self.last_ground = g
        return str(r)

    def check_linear(self, fs, timeout, rounds, ext):
        """the same query with products of two terms replaced by an uninterpreted symmetric function (weaker: unsat is sound)"""
        g = self._ground(list(self.facts) + list(self.path) + list(fs), rounds=rounds, ext=ext)
        memo, hit = {}, [False]
        g2 = [absmul(f, memo, hit) for f in g]
        t0 = time.time()
        sol = z3.Solver(); sol.set('timeout', timeout)
        for f in g2: sol.add(f)
        r = str(sol.check())
        self.nq += 1; self.solver_s += time.time() - t0
        if r == 'sat' and not hit[0]:
            self.last_model = sol.model(); return 'sat-linear'
        return r

    def ring(self, a, b):
        """a == b by polynomial normal forms"""
        return not self.poly(R(a) - R(b))
    in_ref = False
    def refutable(self, f, timeout=1500):
        """facts+path |= not f ?"""
        if f is False: return True
        if f is True: return False
        k = ('ref', toz3b(f).get_id(), tuple(x.get_id() for x in self.path), len(self.facts), len(self.foralls))
        r = self.cache.get(k)
        if r is None and self.in_ref:       # asked while instantiating assumptions for the same kind of question: quantifier-free facts only
            k2 = ('ref0',) + k[1:]; r = self.cache.get(k2)
            if r is None:
                sol = z3.Solver(); sol.set('timeout', min(timeout, 500))
                for x in list(self.facts) + list(self.path) + [toz3b(f)]: sol.add(x)
                r = self.cache[k2] = sol.check() == z3.unsat
                self.keep.append(f); self.keep.extend(x for x in self.path)
        elif r is None:
            self.in_ref = True
            try: r = self.check([f], timeout=timeout, rounds=1, ext=False) == 'unsat'
            finally: self.in_ref = False
            self.cache[k] = r; self.keep.append(f); self.keep.extend(x for x in self.path)
        return r

    def prove(self, goal, timeout=None):
        """facts+path |= goal ?   returns 'proved' | 'refuted' | 'unknown', and a note"""
        if goal is True: return 'proved', 'trivial'
        neg = toz3b(Not(goal))
        back = 'z3'
        best = 'unknown'
        for rounds, ext, to in ((1, False, 2000), (2, False, 3000), (2, True, None)):
            r = self.check_linear([neg], 3000, rounds, ext)
            if r == 'unsat': return 'proved', 'z3'
            if to and r != 'sat-linear' and self.check([neg], timeout=to, rounds=rounds, ext=ext) == 'unsat': return 'proved', 'z3'
        for (rounds, ext, to) in ((1, False, 3000), (2, True, timeout or self.timeout), (3, True, (timeout or self.timeout) * 2)):
            r = self.check_linear([neg], 3000, rounds, ext) if rounds > 2 else 'unknown'
            if r == 'unsat': return 'proved', 'z3'
            if r == 'sat-linear': best = 'refuted'; continue      # no product to reason about
            r = self.check([neg], timeout=to, rounds=rounds, ext=ext)
            if r == 'unsat': return 'proved', 'z3'
            if r == 'sat': best = 'refuted'
            else:
                best = 'unknown'
                r2 = self.nlsat(self.last_ground, to)
                if r2 == 'unsat': return 'proved', 'z3-nlsat'
        return best, back

    def nlsat(self, ground, to):
        """Ackermannised query to a portfolio: z3 qfnra tactic / cvc5"""
        try:
            gs = ackermann(ground)
        except Exception:
            return 'unknown'
        t0 = time.time()
        sol = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver() if False else z3.SolverFor('QF_NIRA')
        sol.set('timeout', to)
        for f in gs: sol.add(f)
        r = str(sol.check())
        self.nq += 1; self.solver_s += time.time() - t0
        if r != 'unsat':
            r2 = cvc5_check(gs, to)
            self.nq += 1
            if r2 == 'unsat': return r2
        return r


NLMUL = z3.Function('nlmul', z3.RealSort(), z3.RealSort(), z3.RealSort())
NLDIV = z3.Function('nldiv', z3.RealSort(), z3.RealSort(), z3.RealSort())
def absmul(e, memo, hit):
    r = memo.get(e.get_id())
    if r is not None: return r[1]
    if not z3.is_app(e) or e.num_args() == 0: out = e
    else:
        ch = [absmul(c, memo, hit) for c in e.children()]
        k = e.decl().kind()
        out = None
        if k == z3.Z3_OP_MUL and z3.is_real(e):
            num = [c for c in ch if z3.is_rational_value(c)]; non = [c for c in ch if not z3.is_rational_value(c)]
            if len(non) > 1:
                hit[0] = True
                non.sort(key=lambda c: c.get_id())
                v = non[0]
                for c in non[1:]: v = NLMUL(v, c)
                for c in num: v = c * v
                out = v
        elif k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
            hit[0] = True; out = NLDIV(ch[0], ch[1])
        elif k in (z3.Z3_OP_POWER, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM) or (k == z3.Z3_OP_MUL and len([c for c in ch if not z3.is_int_value(c)]) > 1): hit[0] = True
        if out is None:
            out = e if all(c.eq(d) for c, d in zip(ch, e.children())) else (z3.substitute_fun if False else rebuild)(e, ch)
    memo[e.get_id()] = (e, out)
    return out
def rebuild(e, ch):
    d = e.decl(); k = d.kind()
    if k == z3.Z3_OP_AND: return z3.And(*ch)
    if k == z3.Z3_OP_OR: return z3.Or(*ch)
    if k == z3.Z3_OP_ADD: return z3.Sum(*ch) if len(ch) > 1 else ch[0]
    if k == z3.Z3_OP_MUL:
        v = ch[0]
        for c in ch[1:]: v = v * c
        return v
    if k == z3.Z3_OP_SUB:
        v = ch[0]
        for c in ch[1:]: v = v - c
        return v
    if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*ch)
    return d(*ch)

def ackermann(fs):
    """eliminate UF applications (innermost first)"""
    apps = {}
    order = []
    for f in fs:
        for t in iterms(f):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0 and t.get_id() not in apps:
                apps[t.get_id()] = t; order.append(t)
    if len(order) > 150: raise Unsupported('too many applications for the Ackermannised query')
    size = {t.get_id(): len(iterms(t)) for t in order}
    order.sort(key=lambda t: size[t.get_id()])
    sub = []
    extra = []
    byf = {}
    for k, t in enumerate(order):
        v = z3.Const('ack!%d' % k, t.sort())
        args = [z3.substitute(a, *sub) if sub else a for a in t.children()]
        for (args2, v2) in byf.get(t.decl().name(), []):
            extra.append(z3.Or([z3.Not(x == y) for x, y in zip(args, args2)] + [v == v2]))
        byf.setdefault(t.decl().name(), []).append((args, v))
        sub.append((t, v))
    # substitute outermost first handles nesting because z3.substitute matches syntactically on the original terms
    res = []
    sub_out = list(reversed(sub))
    for f in fs:
        res.append(z3.substitute(f, *sub_out))
    return res + extra

CVC5 = '/usr/local/bin/cvc5'
def cvc5_check(fs, to):
    import shutil
    exe = shutil.which('cvc5')
    if not exe: return 'unknown'
    sol = z3.Solver()
    for f in fs: sol.add(f)
    txt = '(set-logic ALL)\n' + '\n'.join(l for l in sol.to_smt2().splitlines() if not l.startswith('(set-info'))
    try:
        p = subprocess.run([exe, '--lang', 'smt2', '--tlimit=%d' % to, '-'], input=txt, capture_output=True, text=True, timeout=to / 1000. + 5)
    except Exception:
        return 'unknown'
    o = p.stdout.strip().splitlines()
    return o[0] if o and o[0] in ('sat', 'unsat') else 'unknown'


def assume_ite(e, facts):
    """resolve the conditions of if-then-else nodes (through products and sums) under assumed truth values; drops unit factors"""
    def cond(c):
        for f, v in facts:
            if c.eq(f): return v
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if z3.is_and(c):
            r = [cond(q) for q in c.children()]
            if any(q is False for q in r): return False
            r = [q for q in r if q is not True]
            return True if not r else r[0] if len(r) == 1 else z3.And(*r)
        return c
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c, x, y = e.children()
        c = cond(c)
        if c is True: return assume_ite(x, facts)
        if c is False: return assume_ite(y, facts)
        x = assume_ite(x, facts + ((c, True),) + tuple((q, True) for q in (c.children() if z3.is_and(c) else ()))); y = assume_ite(y, facts + ((c, False),))
        return x if x.eq(y) else z3.If(c, x, y)
    if z3.is_mul(e):
        r = [assume_ite(c, facts) for c in e.children()]
        r = [q for q in r if unwrap(q) != 1]
        if not r: return z3.RealVal(1)
        p = r[0]
        for q in r[1:]: p = p * q
        return p
    if z3.is_add(e):
        r = [assume_ite(c, facts) for c in e.children()]
        p = r[0]
        for q in r[1:]: p = p + q
        return p
    return e
