"""The part of cvxpy the code uses, as a contract: a Variable stands for an arbitrary vector z, expressions and constraints
are their values at z, and Problem.solve returns (status 'optimal') a vector satisfying the constraints whose objective no
other such vector beats.  The verifier therefore proves that the posed problem, at every z, is the stated one."""
from .lib import *
from pv.interp import Ns, Builtin, ExcType, IClass
from pv.npshim import num
from pv.sym import Unsupported

class Var(SArr):
    pass

class CP(object):
    def __init__(self, v, statuses=('optimal', 'infeasible', 'unbounded', 'solver_error')):
        self.v, self.statuses = v, statuses
        v.ip._cp = self
        if 'cvxpy' not in v.ip.shims:
            dl = lambda n: Builtin('cp.' + n, lambda *a, **k: getattr(v.ip._cp, n)(*a, **k))
            SE = ExcType('SolverError', ('Exception',))
            v.ip.shims['cvxpy'] = Ns('cvxpy', {'Variable': dl('variable'), 'norm': dl('norm'), 'norm1': dl('norm1'), 'norm_inf': dl('norm_inf'), 'ECOS': 'ECOS', 'SCS': 'SCS', 'CVXOPT': 'CVXOPT', 'Problem': dl('problem'), 'Minimize': Builtin('cp.Minimize', lambda e: ('min', e)), 'Maximize': Builtin('cp.Maximize', lambda e: ('max', e)),
                'SolverError': SE, 'error': Ns('error', {'SolverError': SE}), 'sum': Builtin('cp.sum', lambda e: A.sum_(e, None)), 'sum_squares': Builtin('cp.sum_squares', lambda e: A.sum_(A.elem(lambda t: s.mul(t, t), e), None)),
                'constraints': Ns('constraints', {'Equality': 'Equality'})})
        self.reset()
        orig = v.ip.isinstance_
        if not getattr(v.ip, '_cpinst', None):
            v.ip._cpinst = True
            def isinst(o, t):
                if t == 'Equality': return v.ip.decide(z3.Bool('is_equality_%d' % len(v.ip.ctx.path)))     # either
                return orig(o, t)
            v.ip.isinstance_ = isinst
    def reset(self): self.vars, self.problems, self.normed = [], [], []
    def variable(self, n=None, name=None, nonneg=False, **k):
        i = len(self.vars)
        if n is None: f = z3.Real('cpvar%d' % i); x = A.asarr(Sym(f))
        else:
            sh = n if isinstance(n, tuple) else (n,)
            f = z3.Function('cpvar%d' % i, *([I] * len(sh) + [RL])); x = SArr(tuple(idx(q) for q in sh), lambda *ii: Sym(f(*[idx(q) for q in ii])))
        val = {}
        def value():
            if 'solved' not in val: raise Unsupported('value before solve')
            g = z3.Function('cpsol%d' % i, *([I] * x.ndim + [RL]))
            return SArr(x.shape, lambda *ii: Sym(g(*[idx(q) for q in ii])))
        y = Var(x.shape, x.getter(), 'f'); y.cp = (i, nonneg, value, val)
        self.vars.append(y)
        return y
    def norm(self, e, p=2):
        if p in (1, INF): return self.norm1(e) if p == 1 else self.norm_inf(e)
        if p != 2: raise Unsupported("cp.norm p")
        e = A.asarr(e); self.normed.append(e)
        if e.ndim > 1: raise Unsupported('cp.norm of a matrix')
        return self.v.ip.call(self.v.ip.np.d['linalg'].d['norm'], [e])
    def norm1(self, e): return self.v.sum(A.asarr(e).shape[0], lambda i: s.abs_(A.asarr(e).at(i)))
    def norm_inf(self, e):
        e = A.asarr(e); g = e.getter()
        return s.abs_(g(self.v.ctx.argext('argmax', e.shape[0], lambda i: s.abs_(g(i)))))
    def problem(self, obj, cons=()):
        P = Ns('cp.Problem', {})
        self.problems.append((obj, cons, P))
        def solve(**k):
            self.kw = k
            for x in self.vars: x.cp[3]['solved'] = True
            st = None
            for q in self.statuses[:-1]:
                if self.v.ip.decide(z3.Bool('status_is_' + q)): st = q; break
            P.d['status'] = st or self.statuses[-1]
            return None
        P.d['solve'] = Builtin('cp.solve', solve); P.d['status'] = None
        return P
