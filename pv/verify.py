"""Targets (functions under contract), obligations and their discharge."""
import z3, time, traceback, json, os, sys, hashlib
from fractions import Fraction
from . import sym as s
from . import arr as A
from .arr import SArr, SList, PyRaise, asarr, scalar
from .sym import Sym, S, And, Or, Not, Implies, Iff, Unsupported, conc, is_bool, toz3b, INF
from .ctx import Ctx, idx
from .interp import Interp, IObj, IMethod, IFunc, IProp, IClass, Ns, Builtin, Opaque

RL, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
TARGETS = []

class Target(object):
    def __init__(self, fn, props, funcs, bounded=None, selftest=False):
        self.fn, self.props, self.funcs, self.bounded, self.selftest = fn, props, funcs, bounded, selftest
        self.name = fn.__name__
        self.doc = (fn.__doc__ or '').strip()

def target(props, *funcs, **kw):
    props = props.split() if isinstance(props, str) else props
    def deco(fn):
        t = Target(fn, props, funcs, **kw)
        t.module = fn.__module__
        TARGETS.append(t)
        return fn
    return deco

class Expected(Exception): pass

class V(object):
    """specification environment of one target"""
    def __init__(self, ip):
        self.ip, self.ctx = ip, ip.ctx
        self.res = {}           # obligation name -> dict
        self.order = []
        self.npath = 0
        self.feasible = 0
        self.assumed = set()
    # -- inputs
    def int(self, name, lo=1, hi=None):
        v = z3.Int('in_' + name)
        if lo is not None: self.ctx.assume(v >= idx(lo))
        if hi is not None: self.ctx.assume(v <= idx(hi))
        return v
    def real(self, name, lo=None, hi=None, pos=False):
        v = z3.Real('in_' + name)
        if pos: self.ctx.assume(v > 0)
        if lo is not None: self.ctx.assume(v >= lo)
        return Sym(v)
    def num(self, d): return d if isinstance(d, int) else Sym(d)
    def arr(self, name, *shape, **kw):
        kind = kw.get('kind', 'f')
        srt = {'f': RL, 'i': I, 'b': B}[kind]
        f = z3.Function('in_' + name, *([I] * len(shape) + [srt]))
        if kind == 'b': return SArr(shape, lambda *i: f(*[idx(x) for x in i]), 'b')
        return SArr(shape, lambda *i: Sym(f(*[idx(x) for x in i])), kind)
    def ext(self, name, *shape, **kw):
        """extended real array: kw pi / ni tell which infinities are possible"""
        f = z3.Function('in_' + name, *([I] * len(shape) + [RL]))
        fl = {q: z3.Function('in_%s_%s' % (name, q), *([I] * len(shape) + [B])) for q in ('pi', 'ni', 'na') if kw.get(q)}
        if kw.get('pi') and kw.get('ni'):
            self.ctx.assume_all([(0, n) for n in shape], lambda *i: Not(And(fl['pi'](*i), fl['ni'](*i))))
        def at(*i):
            i = [idx(x) for x in i]
            return Sym(f(*i), fl['pi'](*i) if 'pi' in fl else False, fl['ni'](*i) if 'ni' in fl else False, fl['na'](*i) if 'na' in fl else False)
        return SArr(shape, at)
    def slist(self, n, get): return SList(n, get)
    def assume(self, f): self.ctx.assume(f)
    def assume_all(self, ranges, fn): self.ctx.assume_all([(0, r) if not isinstance(r, tuple) else r for r in ranges], fn)
    # -- running the code
    def get(self, qual): return self.ip.get(qual)
    def new(self, qual, *a, **k): return self.ip.call(self.ip.get(qual), list(a), k)
    def bare(self, qual, **attrs):
        """object with given attributes, constructor not run (arbitrary state satisfying the stated invariant)"""
        o = IObj(self.ip.get(qual)); o.d.update(attrs); return o
    def call(self, o, name, *a, **k):
        if isinstance(o, str): return self.ip.call(self.ip.get(o), [name] + list(a), k)
        return self.ip.call(self.ip.getattr(o, name), list(a), k)
    def fcall(self, qual, *a, **k): return self.ip.call(self.ip.get(qual), list(a), k)
    def attr(self, o, name): return self.ip.getattr(o, name)
    def contract(self, qual, fn):
        self.ip.contracts[qual] = fn
        self.assumed.add(qual)
    def expect_raise(self, name, thunk, excs, cond=None):
        """thunk raises one of excs"""
        try: r = thunk()
        except PyRaise as e:
            self.ob(name, e.name in excs or any(self.ip.exc_match(e, x) for x in []))
            return e
        self.ob(name, False if cond is None else cond)
        return None
    # -- obligations
    def ob(self, name, goal, timeout=None):
        t0 = time.time()
        if isinstance(goal, bool): st, back = ('proved', 'evaluation') if goal else ('refuted', 'evaluation')
        else: st, back = self.ctx.prove(goal, timeout=timeout)
        if st != 'proved' and self.ctx.check([], rounds=2) == 'unsat': st, back = 'proved', 'infeasible path'
        dt = time.time() - t0
        r = self.res.get(name)
        if r is None:
            r = self.res[name] = {'name': name, 'status': 'proved', 'backend': back, 'seconds': 0., 'n': 0}
            self.order.append(name)
        r['n'] += 1; r['seconds'] += dt
        if back not in r['backend'].split('+') : r['backend'] += '+' + back
        if st != 'proved':
            r['status'] = st
            if 'goal' not in r:
                r['goal'] = str(goal)[:1500]
                r['path'] = [str(p)[:300] for p in self.ctx.path][:20]
                if self.ctx.last_model is not None: r['model'] = str(self.ctx.last_model)[:3000]
        return st == 'proved'
    def have(self, name, goal, timeout=None):
        """intermediate assertion: an obligation, usable afterwards once discharged"""
        ok = self.ob(name, goal, timeout)
        if ok and not isinstance(goal, bool): self.ctx.learn(goal)
        return ok
    def have_all(self, name, ranges, fn, lemmas=None, timeout=None):
        """intermediate universally quantified assertion; lemmas(*ii) runs first on the fresh indices"""
        n, nf = len(self.ctx.path), len(self.ctx.facts)
        try:
            ii = self.fresh(ranges)
            if lemmas is not None: lemmas(*ii)
            ok = self.ob(name, fn(*ii), timeout)
        finally: del self.ctx.path[n:]
        if ok:
            cs = [self.ctx.fresh('hv') for r in ranges]
            body = toz3b(fn(*cs))
            self.ctx.learn_all([(0, r) if not isinstance(r, tuple) else r for r in ranges], lambda *i: z3.substitute(body, *[(c, idx(j)) for c, j in zip(cs, i)]))
        return ok
    def loop(self, qual, no, havoc, inv, kind='while', arrays=()):
        """classical loop rule for the no-th while / for loop of a function: inv holds before; an arbitrary state satisfying it (havoc(fr, k)
        sets every carried variable to fresh values and assumes inv) either leaves the loop or runs the body once, after which inv holds again.
        Everything else the body assigns is unknown afterwards; mutation of other existing objects is refused."""
        import ast
        from .interp import _Break, _Continue, PathEnd, Opaque
        def h(ip, st, fr, seq):
            assigned = set(x.id for b in st.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
            inv(fr, 'invariant holds initially')
            birth0 = A.BIRTH[0]
            for nm in assigned:
                if nm in fr.l or True: ip.store_name(fr, nm, Opaque('loop state %s' % nm))
            k = None
            if kind == 'for':
                n = len(seq) if isinstance(seq, list) else seq.n
                k = self.ctx.fresh('k'); self.ctx.path.append(z3.And(k >= 0, k <= idx(n)))
                havoc(fr, k)
                if not ip.decide(k < idx(n)): return
                if isinstance(seq, list):
                    if not all(isinstance(x, int) for x in seq): raise s.Unsupported('loop over values')
                    if seq != list(range(len(seq))): raise s.Unsupported('loop over values')
                    x = Sym(k)
                else: x = seq.get(k)
                ip.assign(st.target, x, fr)
            else:
                havoc(fr, None)
                if not ip.truth(ip.ev(st.test, fr)): return
            from .loops import reach
            mark, pre = len(ip.trail), reach(ip, fr)
            def brk():
                for u in ip.trail[mark:]:
                    o = getattr(u, 'obj', None)
                    if o is not None and o[0] in ('attr', 'list', 'slist', 'dict') and id(o[1]) in pre and not any(o[1] is a for a in arrays):
                        if o[0] == 'attr' and getattr(o[1].cls.lookup(o[2])[0], 'cached', False): continue
                        raise s.Unsupported('loop mutates %s %s outside the invariant' % (o[0], o[2] if len(o) > 2 else ''))
            try: ip.block(st.body, fr)
            except _Continue: pass
            except _Break: brk(); return
            brk()
            for u in ip.trail[mark:]:
                o = getattr(u, 'obj', None)
                if o is None: raise s.Unsupported('untracked mutation in a loop body')
                if o[0] == 'arr' and o[1].birth <= birth0 and not any(o[1] is a for a in arrays): raise s.Unsupported('loop mutates an array outside the invariant')
            inv(fr, 'invariant preserved', k)
            raise PathEnd()
        self.ip.loop_contracts[(qual, no) if kind == 'while' else (qual, 'for', no)] = h
    def scope(self):
        """facts learned inside are forgotten at the end (weakening)"""
        import contextlib
        @contextlib.contextmanager
        def cm():
            c = self.ctx; n = (len(c.facts), len(c.path), list(c.foralls))
            try: yield
            finally: del c.facts[n[0]:]; del c.path[n[1]:]; c.foralls = n[2]
        return cm()
    def focus(self, keep=1):
        """drop all quantified assumptions but the last `keep` (weakening)"""
        self.ctx.foralls = self.ctx.foralls[-keep:] if keep else []
    def ring(self, name, a, b):
        """a == b as polynomials (normal forms agree); usable afterwards"""
        a, b = S(a), S(b)
        if a.plain and b.plain and self.ctx.ring(a.e, b.e): self.ob(name, True); self.ctx.learn(s.eq(a, b)); return True
        return self.have(name, s.same(a, b))
    def fresh(self, ranges):
        """fresh in-range index constants"""
        out = []
        for r in ranges:
            lo, hi = r if isinstance(r, tuple) else (0, r)
            c = self.ctx.fresh('ob')
            self.ctx.path.append(z3.And(c >= idx(lo), c < idx(hi)))
            out.append(c)
        return out
    def forall(self, name, ranges, fn, timeout=None):
        n = len(self.ctx.path)
        try:
            ii = self.fresh(ranges)
            return self.ob(name, fn(*ii), timeout)
        finally: del self.ctx.path[n:]
    def shape(self, name, a, *sh):
        ok = isinstance(a, SArr) and a.ndim == len(sh)
        self.ob(name, ok)
        if ok:
            for k, (d, e) in enumerate(zip(a.shape, sh)): self.ob(name, A.ieq(d, e))
        return ok
    def eq_arr(self, name, a, sh, fn, timeout=None):
        """a has shape sh and a[i..] == fn(i..)"""
        if not self.shape(name + ':shape', a, *sh): return
        self.forall(name, list(sh), lambda *i: s.same(a.at(*i), fn(*i)), timeout)
    def unchanged(self, name, a, a0):
        self.forall(name, list(a.shape), lambda *i: s.same(a.at(*i), a0(*i)))
    # -- term helpers
    def sum(self, n, fn): return self.ctx.sum_(n, fn)
    def linear(self, name, n, terms):
        """finite sums are linear:  (for every q: sum_t c_t f_t(q) = 0)  =>  sum_t c_t sum_q f_t(q) = 0.   terms: [(c_t, f_t)]; a proof obligation for the premise, then the conclusion is usable"""
        def tot(g):
            r = 0
            for c, f in terms: r = s.add(r, s.mul(c, g(f)))
            return r
        self.forall(name, [n], lambda q: s.eq(tot(lambda f: f(q)), 0))
        return lambda: s.eq(tot(lambda f: self.sum(n, f)), 0)
    def swap(self, n, m, f):
        """finite double sums can be interchanged"""
        return lambda: s.eq(self.sum(n, lambda i: self.sum(m, lambda j: f(i, j))), self.sum(m, lambda j: self.sum(n, lambda i: f(i, j))))
    def all(self, n, fn): return self.ctx.all_(n, fn)
    def dotv(self, n, f, g): return self.ctx.sum_(n, lambda j: s.mul(f(j), g(j)))

def run_target(t, repo, timeout=None, maxpaths=None):
    t0 = time.time()
    out = {'target': t.name, 'module': t.module, 'props': t.props, 'doc': t.doc, 'functions': list(t.funcs), 'status': None, 'obligations': [],
           'paths': 0, 'feasible_paths': 0, 'executed': {}, 'by_contract': {}, 'external': {}, 'queries': 0, 'solver_s': 0.}
    ip = None
    try:
        ctx = Ctx(timeout=timeout or 8000)
        ip = Interp(repo, ctx)
        v = V(ip)
        def on_path(o):
            v.npath += 1
            if o[0] == 'exc':
                v.ob('no unexpected exception', False)
                v.res['no unexpected exception'].setdefault('exc', '%s: %s' % (o[1].name, str(o[1].value)[:300]))
                if v.res['no unexpected exception']['status'] != 'proved' and 'tb' not in v.res['no unexpected exception']:
                    tb = o[1].__traceback__
                    v.res['no unexpected exception']['tb'] = ''.join(traceback.format_tb(tb)[-3:])[:1200]
            r = ctx.check([], rounds=1)
            if r != 'unsat': v.feasible += 1
        def thunk():
            ip.contracts = {}; ip.loop_contracts = {}; s.DEFINED[0] = False
            return t.fn(v)
        out['paths'] = ip.run_paths(thunk, on_path, maxpaths)
        out['feasible_paths'] = v.feasible
        out['obligations'] = [v.res[n] for n in v.order]
        bad = [r for r in out['obligations'] if r['status'] != 'proved']
        if not out['obligations'] or v.feasible == 0: out['status'] = 'vacuous'
        elif bad: out['status'] = 'failed'
        else: out['status'] = 'proved'
    except Unsupported as e:
        out['status'] = 'outside'; out['why'] = str(e)
        out['where'] = traceback.format_exc()[-1500:]
        if ip is not None: out['obligations'] = [v.res[n] for n in v.order]
    except RecursionError as e:
        out['status'] = 'outside'; out['why'] = 'recursion limit'
    except Exception as e:
        out['status'] = 'error'; out['why'] = repr(e); out['where'] = traceback.format_exc()[-2500:]
    if ip is not None:
        out['executed'], out['by_contract'], out['external'] = ip.called, ip.bycontract, ip.external
        out['queries'], out['solver_s'] = ip.ctx.nq, round(ip.ctx.solver_s, 3)
    out['wall_s'] = round(time.time() - t0, 3)
    return out
