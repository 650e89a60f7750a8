from core import *
import psdr
from domgen import *
KN = ['box', 'linineq', 'linquad', 'normal', 'normal_trunc', 'uniform', 'tensor', 'point', 'hull']

class F(object):
    """quadratic test functions with exact gradients; records that its arguments stay unmodified"""
    def __init__(self, r, m, nf):
        self.A = [(lambda B: B + B.T)(r.randn(m, m)) for _ in range(nf)]; self.g = [r.randn(m) for _ in range(nf)]; self.nf = nf
    def val(self, k, x, c=1.): return c * (.5 * x.dot(self.A[k].dot(x)) + self.g[k].dot(x))
    def grad(self, k, x, c=1.): return c * (self.A[k].dot(x) + self.g[k])
    def row(self, x, c=1.): return np.array([self.val(k, x, c) for k in range(self.nf)])
    def jac(self, x, c=1.): return np.array([self.grad(k, x, c) for k in range(self.nf)])

def build(T):
    """-> Function under test, value and Jacobian in application units, number of outputs, mode"""
    r = T.rng
    d, s = make(T, r.choice(KN))
    nf = int(r.choice([1, 2, 3])); f = F(r, s.m, nf)
    vec = bool(r.rand() < .5); split = bool(nf == 1 or r.rand() < .6); mode = r.choice(['grads', 'return_grad', 'fd'])
    T.note(vec=vec, split=split, mode=mode, nf=nf)
    col = bool(r.rand() < .5)         # vectorized functions may return (M,) or (M,1)
    def fun_k(ks):
        def fun(x, return_grad=False, c=1.):
            x = np.asarray(x)
            if x.ndim == 1:
                v = np.array([f.val(k, x, c) for k in ks]); g = np.array([f.grad(k, x, c) for k in ks])
                if len(ks) == 1: v, g = (v[0], g[0])
            else:
                v = np.array([[f.val(k, y, c) for k in ks] for y in x]); g = np.array([[f.grad(k, y, c) for k in ks] for y in x])
                if len(ks) == 1: g = g[:, 0]; v = v if col else v[:, 0]
            return (v, g) if return_grad else v
        def grad(x, c=1.): return fun(x, True, c)[1]
        return fun, grad
    groups = [[k] for k in range(nf)] if split else [list(range(nf))]
    fs = [fun_k(g) for g in groups]
    funs, grads = [a for a, _ in fs], [b for _, b in fs]
    if len(funs) == 1 and r.rand() < .5: funs, grads = funs[0], grads[0]
    kw = dict(vectorized=vec)
    if mode == 'grads': kw['grads'] = grads
    elif mode == 'return_grad': kw['return_grad'] = True
    else: kw['fd_grad'] = True
    c0 = 1.
    if r.rand() < .4: c0 = r.uniform(.5, 2); kw['kwargs'] = {'c': c0}
    return psdr.Function(funs, d, **kw), d, s, f, nf, mode, c0

@case(90, funcs=['Function.eval', 'Function.grad', 'Function.__call__', 'Function._shape_grad'])
def values_and_gradients(T):
    """values are the user's at the application point; gradients are with respect to normalized coordinates; shapes; rows agree; points unmodified"""
    r = T.rng
    fun, d, s, f, nf, mode, c0 = build(T)
    M = int(r.choice([1, 2, s.m, 5])); X = np.array([s.x0 + r.randn(s.m) for _ in range(M)]); Xn = d.normalize(X); X0 = Xn.copy()
    D = np.array(d.unnormalize(np.eye(s.m)) - d.unnormalize(np.zeros((s.m, s.m))))       # rows: images of unit vectors
    kw, c = ({}, c0)
    if r.rand() < .3: c = r.uniform(.5, 2); kw = {'c': c}
    V = np.array([f.row(x, c) for x in X]); J = np.array([f.jac(x, c).dot(D.T) for x in X])
    sc = 1e-4 * (1 + np.max(np.abs(J)) + np.max(np.abs(V))) if mode == 'fd' else 1e-9 * (1 + np.max(np.abs(J)))
    T.close(fun(Xn, **kw), V, 'fun(X)', rtol=1e-8, atol=1e-8 * (1 + np.max(np.abs(V)))); T.close(fun.eval(Xn, **kw), V, 'eval(X)', rtol=1e-8, atol=1e-8 * (1 + np.max(np.abs(V))))
    JJ = J[:, 0] if nf == 1 else J
    T.close(fun.grad(Xn, **kw), JJ, 'grad(X)', rtol=1e-6, atol=sc)
    a, b = fun(Xn, return_grad=True, **kw)
    T.close(a, V, 'value of fun(X, return_grad)', rtol=1e-8, atol=1e-8 * (1 + np.max(np.abs(V)))); T.close(b, JJ, 'gradient of fun(X, return_grad)', rtol=1e-6, atol=sc)
    x = Xn[0]
    T.close(fun(x, **kw), V[0], 'fun(x)', rtol=1e-8, atol=1e-8 * (1 + np.max(np.abs(V)))); T.close(fun.grad(x, **kw), JJ[0], 'grad(x)', rtol=1e-6, atol=sc)
    a, b = fun(x, return_grad=True, **kw)
    T.close(a, V[0], 'value of fun(x, return_grad)', rtol=1e-8, atol=1e-8 * (1 + np.max(np.abs(V)))); T.close(b, JJ[0], 'gradient of fun(x, return_grad)', rtol=1e-6, atol=sc)
    T.ok(np.all(Xn == X0), 'points unmodified')
    a, b = fun(list(x), return_grad=True, **kw); T.close(b, JJ[0], 'points may be lists', rtol=1e-6, atol=sc)

@case(10, funcs=['Function.__init__'])
def domains(T):
    """the wrapper exposes the normalized domain; wrong numbers of gradients and lengths are rejected"""
    r = T.rng
    fun, d, s, f, nf, mode, c0 = build(T)
    x = s.x0 + r.randn(s.m)
    T.ok(fun.domain_app is d and fun.domain is fun.domain_norm, 'domains')
    if abs(s.slack(x)) > 1e-4: T.ok(bool(fun.domain.isinside(d.normalize(x))) == bool(d.isinside(x)), 'same set')
    T.raises(AssertionError, lambda: psdr.Function([lambda x: x, lambda x: x], d, grads=[lambda x: x]), 'number of gradients')
    bad = psdr.Function(lambda X: np.zeros(len(X) + 1), d, vectorized=True)
    T.raises(AssertionError, lambda: bad(d.normalize(np.array([s.x0, s.x0]))), 'length of a vectorized result')
    if mode != 'none':
        g = psdr.Function(lambda x: 0., d); T.raises(NotImplementedError, lambda: g.grad(d.normalize(s.x0)), 'no gradient')
