"""C12: polynomial and ridge functions over an arbitrary basis (its matrices V, DV, DDV enter as arbitrary arrays at the points
the code evaluates them; that DV and DDV are the derivatives of V is C11)."""
from .ext import *
from pv.interp import Builtin
PF = 'psdr.poly:PolynomialFunction'
RF = 'psdr.polyridge:PolynomialRidgeFunction'

class Basis(object):
    """V/DV/DDV as functions of the point: entry [i,j] is psi_j at (an arbitrary linear functional of) row i"""
    def __init__(self, v, n):
        self.v, self.n, self.N = v, n, v.int('Nbasis')
        w = v.arr('wfun', n)
        self.f = [z3.Function('psi%d' % k, *([I] * (1 + k) + [RL, RL])) for k in range(3)]
        self.lin = lambda x: v.sum(n, lambda j: s.mul(w.at(j), x(j)))
        self.obj = v.bare('psdr.basis:PolynomialTensorBasis')
        for k, nm in enumerate(('V', 'DV', 'DDV')): self.obj.d[nm] = Builtin('basis.' + nm, self.mat(k))
    def psi(self, x, j, *d): return Sym(self.f[len(d)](idx(j), *[idx(q) for q in d], S(self.lin(x)).e))
    def mat(self, k):
        def fn(X):
            X = A.asarr(X); g = X.getter()
            if X.ndim == 1: M, row = 1, (lambda i: lambda l: g(l))
            else: M, row = X.shape[0], (lambda i: lambda l: g(i, l))
            self.v.ob('basis points have the basis dimension', A.ieq(X.shape[-1], self.n))
            return SArr((M, self.N) + (self.n,) * k, lambda i, j, *d: self.psi(row(i), j, *d))
        return fn

def poly(v):
    n = v.int('n'); b = Basis(v, n); c = v.arr('coef', b.N)
    return n, b, c, v.new(PF, b.obj, c)

@target('C12', PF + '.eval', PF + '.V', PF + '.__init__')
def poly_eval(v):
    """values are the basis expansion"""
    n, b, c, p = poly(v); M = v.int('M'); X = v.arr('X', M, n)
    v.eq_arr('value', v.call(p, 'eval', X), (M,), lambda i: v.sum(b.N, lambda j: s.mul(c.at(j), b.psi(lambda l: X.at(i, l), j))))
    x = v.arr('x', n)
    v.eq_arr('single value', v.call(p, 'eval', x), (1,), lambda i: v.sum(b.N, lambda j: s.mul(c.at(j), b.psi(x.at, j))))

@target('C12', PF + '.grad', PF + '.DV')
def poly_grad(v):
    """gradients are the expansion in the derivatives of the basis"""
    n, b, c, p = poly(v); M = v.int('M'); X = v.arr('X', M, n)
    v.eq_arr('gradient', v.call(p, 'grad', X), (M, n), lambda i, k: v.sum(b.N, lambda j: s.mul(c.at(j), b.psi(lambda l: X.at(i, l), j, k))))
    x = v.arr('x', n)
    v.eq_arr('single gradient', v.call(p, 'grad', x), (n,), lambda k: v.sum(b.N, lambda j: s.mul(c.at(j), b.psi(x.at, j, k))))

@target('C12', PF + '.hessian', PF + '.DDV')
def poly_hess(v):
    """Hessians are the expansion in the second derivatives of the basis"""
    n, b, c, p = poly(v); M = v.int('M'); X = v.arr('X', M, n)
    v.eq_arr('Hessian', v.call(p, 'hessian', X), (M, n, n), lambda i, k, q: v.sum(b.N, lambda j: s.mul(c.at(j), b.psi(lambda l: X.at(i, l), j, k, q))))
    x = v.arr('x', n)
    v.eq_arr('single Hessian', v.call(p, 'hessian', x), (n, n), lambda k, q: v.sum(b.N, lambda j: s.mul(c.at(j), b.psi(x.at, j, k, q))))

def ridge(v):
    n, m = v.int('n'), v.int('m'); b = Basis(v, n); c = v.arr('coef', b.N); U = v.arr('U', m, n)
    return n, m, b, c, U, v.new(RF, b.obj, c, U), lambda x: lambda l: v.sum(m, lambda q: s.mul(U.at(q, l), x(q)))

@target('C12', RF + '.eval', RF + '.V', RF + '.__init__')
def ridge_eval(v):
    """values are the profile at the coordinates of the point in the subspace"""
    n, m, b, c, U, p, pr = ridge(v); M = v.int('M'); X = v.arr('X', M, m)
    v.eq_arr('value', v.call(p, 'eval', X), (M,), lambda i: v.sum(b.N, lambda j: s.mul(c.at(j), b.psi(pr(lambda l: X.at(i, l)), j))))
    x = v.arr('x', m)
    v.eq_arr('single value', v.call(p, 'eval', x), (1,), lambda i: v.sum(b.N, lambda j: s.mul(c.at(j), b.psi(pr(x.at), j))))

@target('C12', RF + '.eval')
def ridge_invariant(v):
    """a ridge function is constant along directions orthogonal to its subspace"""
    n, m, b, c, U, p, pr = ridge(v); x, d = v.arr('x', m), v.arr('d', m)
    v.assume_all([n], lambda l: s.eq(v.sum(m, lambda q: s.mul(U.at(q, l), d.at(q))), 0))
    f0 = v.call(p, 'eval', x).at(0)
    f1 = v.call(p, 'eval', SArr((m,), lambda j: s.add(x.at(j), d.at(j)))).at(0)
    # the projected coordinates agree entry by entry, hence so does every functional of them
    w = v.arr('wfun', n)
    v.have_all('coordinates', [n], lambda l: s.eq(pr(lambda q: s.add(x.at(q), d.at(q)))(l), pr(x.at)(l)))
    v.ctx.zerosum = True
    v.have('functional', s.eq(v.sum(n, lambda l: s.mul(w.at(l), pr(lambda q: s.add(x.at(q), d.at(q)))(l))), v.sum(n, lambda l: s.mul(w.at(l), pr(x.at)(l)))))
    v.ob('constant', s.same(f0, f1))

@target('C12', RF + '.grad', RF + '.DV')
def ridge_grad(v):
    """the gradient is the reduced gradient pulled back through the subspace"""
    n, m, b, c, U, p, pr = ridge(v); M = v.int('M'); X = v.arr('X', M, m)
    g = lambda x, k: v.sum(n, lambda l: s.mul(U.at(k, l), v.sum(b.N, lambda j: s.mul(c.at(j), b.psi(pr(x), j, l)))))
    v.eq_arr('gradient', v.call(p, 'grad', X), (M, m), lambda i, k: g(lambda q: X.at(i, q), k))
    x = v.arr('x', m)
    v.eq_arr('single gradient', v.call(p, 'grad', x), (m,), lambda k: g(x.at, k))

@target('C12', RF + '.hessian', RF + '.DDV')
def ridge_hess(v):
    """the Hessian is the reduced Hessian pulled back on both sides"""
    n, m, b, c, U, p, pr = ridge(v); M = v.int('M'); X = v.arr('X', M, m)
    h = lambda x, k, q: v.sum(n, lambda l: s.mul(U.at(q, l), v.sum(n, lambda r: s.mul(U.at(k, r), v.sum(b.N, lambda j: s.mul(c.at(j), b.psi(pr(x), j, l, r)))))))
    H = v.call(p, 'hessian', X)
    v.eq_arr('Hessian', H, (M, m, m), lambda i, k, q: h(lambda t: X.at(i, t), k, q))
    x = v.arr('x', m)
    v.eq_arr('single Hessian', v.call(p, 'hessian', x), (m, m), lambda k, q: h(x.at, k, q))

@target('C12', RF + '.profile')
def ridge_profile(v):
    """the profile is the polynomial function with the same basis and coefficients"""
    n, m, b, c, U, p, pr = ridge(v); y = v.arr('y', n)
    v.eq_arr('profile value', v.call(v.attr(p, 'profile'), 'eval', y), (1,), lambda i: v.sum(b.N, lambda j: s.mul(c.at(j), b.psi(y.at, j))))
    v.eq_arr('subspace', v.attr(p, 'U'), (m, n), lambda i, j: U.at(i, j))

def lstsq(v, log):
    """scipy.linalg.lstsq by contract: no other vector has a smaller residual (compared as squared norms)"""
    def fn(Am, b, *a, **k):
        x = fresh_arr(v, 'lstsq', Am.shape[1])
        log.append((Am, b, x))
        return (x, None, None, None)
    return fn

@target('C12', 'psdr.poly:linear_fit')
def fit_least_squares(v):
    """the plain 2-norm fit is the least squares solution; data generated by the basis are reproduced"""
    M, N = v.int('M'), v.int('N'); V, c0 = v.arr('V', M, N), v.arr('c0', N)
    fX = SArr((M,), lambda i: v.sum(N, lambda j: s.mul(V.at(i, j), c0.at(j))))
    log = []; ext(v, {'scipy.linalg.lstsq': lstsq(v, log)})
    c = v.fcall('psdr.poly:linear_fit', V, fX)
    v.ob('one least squares problem', len(log) == 1)
    Am, b, x = log[0]
    v.eq_arr('the basis matrix', Am, (M, N), lambda i, j: V.at(i, j)); v.eq_arr('the values', b, (M,), lambda i: fX.at(i)); v.eq_arr('result', c, (N,), lambda j: x.at(j))
    res = lambda y, i: s.sub(v.sum(N, lambda j: s.mul(Am.at(i, j), y.at(j))), b.at(i))
    sq = lambda t: s.mul(t, t)
    # optimality against c0, whose residual vanishes
    w = v.arr('residual', M)         # names for the residual entries
    v.assume_all([M], lambda i: s.eq(w.at(i), res(x, i)))
    v.have('the generating coefficients have no residual', s.eq(v.sum(M, lambda i: sq(s.sub(v.sum(N, lambda j: s.mul(V.at(i, j), c0.at(j))), fX.at(i)))), 0))
    v.assume(s.le(v.sum(M, lambda i: sq(w.at(i))), 0))
    v.forall('data reproduced', [M], lambda i: s.eq(v.sum(N, lambda j: s.mul(V.at(i, j), c.at(j))), fX.at(i)))

@target('C12', 'psdr.polyridge:two_norm_fit')
def ridge_least_squares(v):
    """the 2-norm ridge coefficients solve the least squares problem"""
    M, N = v.int('M'), v.int('N'); V, f = v.arr('V', M, N), v.arr('f', M)
    log = []; ext(v, {'scipy.linalg.lstsq': lstsq(v, log)})
    c = v.fcall('psdr.polyridge:two_norm_fit', V, f); Am, b, x = log[0]
    v.eq_arr('matrix', Am, (M, N), lambda i, j: V.at(i, j)); v.eq_arr('values', b, (M,), lambda i: f.at(i)); v.eq_arr('result', c, (N,), lambda j: x.at(j))

def posed(v, qual, side, p, **kw):
    from .cvx import CP
    from .optim import conj
    cp = CP(v, ('optimal',)); M, N = v.int('M'), v.int('N'); V, f = v.arr('V', M, N), v.arr('f', M)
    c = v.fcall(qual, V, f, **kw)
    v.ob('one problem', len(cp.problems) == 1)
    (sense, o), cons, P = cp.problems[0]; z = cp.vars[0]
    r = lambda i: s.sub(v.sum(N, lambda j: s.mul(V.at(i, j), z.at(j))), f.at(i))
    v.ob('minimized', sense == 'min')
    want = {1: lambda: v.sum(M, lambda i: s.abs_(r(i))), 2: lambda: s.sqrt(v.sum(M, lambda i: s.mul(r(i), r(i)))), INF: lambda: cp.norm_inf(SArr((M,), r))}[p]()
    v.ob('objective is the norm of the residual', s.same(A.asarr(o).at() if isinstance(o, SArr) else o, want))
    side = {None: lambda i: True, 'lower': lambda i: s.le(r(i), 0), 'upper': lambda i: s.le(0, r(i))}[side]
    H = conj(v, cons) if len(cons) else True
    v.ob('constraints are the bound', Iff(H, v.all(M, side)))
    v.eq_arr('result is the solution', c, (N,), lambda j: z.cp[2]().at(j))

for _b in (None, 'lower', 'upper'):
    for _p in (1, 2, INF):
        if _b is None and _p == 2: continue
        def _t(v, b=_b, p=_p): posed(v, 'psdr.poly:linear_fit', b, p, norm=p, bound=b)
        _t.__name__ = 'fit_%s_%s' % (_b or 'free', 'inf' if _p == INF else _p); _t.__doc__ = 'the posed fit: norm %s, bound %s' % (_p, _b)
        target('C12', 'psdr.poly:linear_fit')(_t)
for _q, _b, _p in (('one_norm_fit', None, 1), ('inf_norm_fit', None, INF), ('bound_fit', 'upper', 1), ('bound_fit', 'upper', 2), ('bound_fit', 'upper', INF)):
    def _t(v, q=_q, b=_b, p=_p): posed(v, 'psdr.polyridge:' + q, b, p, **({'norm': p} if b else {}))
    _t.__name__ = 'ridge_%s_%s' % (_q, 'inf' if _p == INF else _p); _t.__doc__ = 'the posed ridge fit'
    target('C12', 'psdr.polyridge:' + _q)(_t)

RA = 'psdr.polyridge:PolynomialRidgeApproximation'
def fitcoef(v, bound, norm):
    n, m, M = v.int('n'), v.int('m'), v.int('M'); N = v.int('N')
    X, f, U, V = v.arr('X', M, m), v.arr('f', M), v.arr('U', m, n), v.arr('V', M, N)
    calls = []
    Y = lambda i, l: v.sum(m, lambda q: s.mul(U.at(q, l), X.at(i, q)))
    def mkbasis(deg, X=None):
        v.ob('degree', s.eq(deg, d)); v.eq_arr('basis points', X, (M, n), Y)
        o = v.bare('psdr.basis:PolynomialTensorBasis')
        def Vf(Z): v.eq_arr('points of the matrix', Z, (M, n), Y); return V
        o.d['V'] = Builtin('V', Vf); return o
    d = v.int('degree', 0)
    p = v.bare(RA, degree=v.num(d), bound=bound, norm=norm, Basis=Builtin('Basis', mkbasis))
    def rec(nm):
        def fn(ip, loc):
            x = fresh_arr(v, nm, N); calls.append((nm, loc, x)); return x
        return fn
    for q in ('one_norm_fit', 'two_norm_fit', 'inf_norm_fit', 'bound_fit'): v.contract('psdr.polyridge:' + q, rec(q))
    c = v.call(p, '_fit_coef', X, f, U)
    want = {None: {1: 'one_norm_fit', 2: 'two_norm_fit', INF: 'inf_norm_fit'}[norm]}.get(bound, 'bound_fit')
    v.ob('the fit of the norm', len(calls) == 1 and calls[0][0] == want)
    nm, loc, x = calls[0]; sg = -1 if bound == 'lower' else 1
    v.eq_arr('matrix', loc['A'], (M, N), lambda i, j: s.mul(sg, V.at(i, j))); v.eq_arr('values', loc['b'], (M,), lambda i: s.mul(sg, f.at(i)))
    if bound: v.ob('norm', loc['norm'] == norm)
    v.eq_arr('coefficients', c, (N,), lambda j: x.at(j))
for _b in (None, 'lower', 'upper'):
    for _p in (1, 2, INF):
        def _t(v, b=_b, p=_p): fitcoef(v, b, p)
        _t.__name__ = 'fitcoef_%s_%s' % (_b or 'free', 'inf' if _p == INF else _p); _t.__doc__ = 'coefficients come from the fit of the profile at the projected samples (norm %s, bound %s)' % (_p, _b)
        target('C12', RA + '._fit_coef')(_t)

def finish(v, rotate, n=None):
    n = n or v.int('n', 2); m, M = v.int('m'), v.int('M')
    ur, log, used = {}, [], []
    def svd(G, full_matrices=True, **k):
        R = fresh_arr(v, 'Ur', n, n); ur['R'] = R; ur['arg'] = G; return (R, None, None)
    ext(v, {'scipy.linalg.svd': svd})
    X, f, U = v.arr('X', M, m), v.arr('f', M), v.arr('U', m, n)
    p = v.bare(RA, rotate=rotate, subspace_dimension=v.num(n), basis=None)
    def grad(ip, loc):
        G = fresh_arr(v, 'grads', M, n); log.append((loc['X'], G)); return G
    v.contract('psdr.poly:PolynomialFunction.grad', grad)
    v.contract(RA + '._fit_coef', lambda ip, loc: used.append(loc['U'].getter()) or fresh_arr(v, 'coef', 1))
    v.call(p, '_finish', X, f, U)
    W = v.attr(p, '_U')
    if not v.shape('subspace', W, m, n): return
    proj = lambda P: lambda i, l: v.sum(m, lambda q: s.mul(P(q, l), X.at(i, q)))
    if not rotate:
        v.ob('no gradients needed', len(log) == 0); v.eq_arr('unrotated', W, (m, n), lambda i, j: U.at(i, j)); v.forall('final fit', [m, n], lambda i, j: s.same(used[-1](i, j), U.at(i, j))); return
    one = isinstance(n, int) and n == 1
    cur = U.at
    if not one:
        v.eq_arr('rotation from slopes at the projected samples', log[0][0], (M, n), proj(U.at))
        R = ur['R']; cur = lambda i, j: v.sum(n, lambda l: s.mul(U.at(i, l), R.at(l, j)))
        v.eq_arr('rotation by the principal directions of the slopes', ur['arg'], (n, M), lambda l, i: log[0][1].at(i, l))
    Z, G = log[-1]
    v.eq_arr('slopes at the rotated samples', Z, (M, n), proj(cur))
    mean = lambda l: s.div(v.sum(M, lambda i: G.at(i, l)), M)
    sg = lambda l: s.ite(s.lt(mean(l), 0), -1, 1)
    v.forall('columns change at most their sign', [m, n], lambda i, l: Or(s.eq(W.at(i, l), cur(i, l)), s.eq(W.at(i, l), s.neg(cur(i, l)))))
    v.forall('average slopes along the result nonnegative', [m, n], lambda i, l: Or(s.eq(cur(i, l), 0), s.eq(mean(l), 0), s.le(0, s.mul(mean(l), s.mul(W.at(i, l), cur(i, l))))))
    v.forall('final fit uses the result', [m, n], lambda i, j: s.same(used[-1](i, j), W.at(i, j)))
@target('C12', RA + '._finish')
def finish_fixed(v):
    """without rotation the given subspace is used unchanged"""
    finish(v, False)
@target('C12', RA + '._finish')
def finish_one(v):
    """one direction: only its sign may change, so that the average slope is nonnegative"""
    finish(v, True, 1)
@target('C12', RA + '._finish')
def finish_rotated(v):
    """several directions: rotated onto the principal directions of the profile slopes, then signs"""
    finish(v, True)
