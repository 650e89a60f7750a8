"""C10: the function wrapper.  The user functions are arbitrary linear maps with arbitrary keyword factor: the wrapper never
looks at the values it is given, so what it does to these it does to any function (values are moved, never inspected)."""
from .ext import *
from .normdomain import setup
F_ = 'psdr.function:Function.'
from pv.interp import Builtin

class User(object):
    """user functions k = 0.. : outputs w_k x (scalar or p_k values), gradients arbitrary functions of the point; all scaled by keyword c"""
    def __init__(self, v, m, nouts):
        self.v, self.m, self.nouts = v, m, nouts
        self.W = [v.arr('W%d' % k, 1 if p is None else p, m) for k, p in enumerate(nouts)]
        self.G = [z3.Function('in_G%d' % k, I, I, RL, RL) for k in range(len(nouts))]
    def lin(self, k, o, x):
        return self.v.sum(self.m, lambda j: s.mul(self.W[k].at(o, j), x(j)))
    def gr(self, k, o, j, x):
        """gradient entry: an arbitrary function of (a linear functional of) the point"""
        return Sym(self.G[k](idx(o), idx(j), S(self.lin(k, o, x)).e))
    def fun(self, k, vectorized, both=False):
        p = self.nouts[k]
        def value(x, c):
            if x.ndim == 1:
                if p is None: return s.mul(c, self.lin(k, 0, x.at))
                return SArr((p,), lambda o: s.mul(c, self.lin(k, o, x.at)))
            if p is None: return SArr((x.shape[0],), lambda i: s.mul(c, self.lin(k, 0, lambda j: x.at(i, j))))
            return SArr((x.shape[0], p), lambda i, o: s.mul(c, self.lin(k, o, lambda j: x.at(i, j))))
        def grad(x, c):
            if x.ndim == 1:
                if p is None: return SArr((self.m,), lambda j: s.mul(c, self.gr(k, 0, j, x.at)))
                return SArr((p, self.m), lambda o, j: s.mul(c, self.gr(k, o, j, x.at)))
            if p is None: return SArr((x.shape[0], self.m), lambda i, j: s.mul(c, self.gr(k, 0, j, lambda l: x.at(i, l))))
            return SArr((x.shape[0], p, self.m), lambda i, o, j: s.mul(c, self.gr(k, o, j, lambda l: x.at(i, l))))
        def f(x, return_grad=False, c=1):
            x = A.asarr(x)
            return (value(x, c), grad(x, c)) if return_grad else value(x, c)
        return Builtin('user%d' % k, f), Builtin('grad%d' % k, lambda x, c=1: grad(A.asarr(x), c))

def wrapper(v, nouts, vec=False, mode=None, kw=None):
    d, m, nlb, nub, S_ = setup(v)
    u = User(v, m, nouts)
    fs = [u.fun(k, vec) for k in range(len(nouts))]
    f = v.bare('psdr.function:Function', _funs=[a for a, _ in fs], _grads=[b for _, b in fs] if mode == 'grads' else None, vectorized=vec, kwargs=kw or {}, return_grad=mode == 'return_grad', fd_grad=mode == 'fd' or None,
               domain_app=d, domain=d, domain_norm=d, dask_client=None)
    return f, d, m, u

def outs(nouts):
    """flat list of (function, output) for scalar outputs"""
    return [(k, 0) for k in range(len(nouts))]

def ev(v, vec, batch, kwd):
    c0, c1 = v.real('c0'), v.real('c1')
    f, d, m, u = wrapper(v, [None, None], vec, None, {'c': c0})
    kw = {'c': c1} if kwd else {}
    c = c1 if kwd else c0
    if batch:
        n = v.int('N', 1); X = v.arr('X', n, m)
        Y = v.call(d, 'unnormalize', X)
        R = v.call(f, 'eval', X, **kw)
        if v.shape('one row per point, one column per function', R, n, 2):
            for k in range(2): v.forall('column %d is the value of function %d at the application point' % (k, k), [n], lambda i: s.same(R.at(i, k), s.mul(c, u.lin(k, 0, lambda j: Y.at(i, j)))))
        v.unchanged('points', X, v.arr('X', n, m).at)
    else:
        x = v.arr('x', m); y = v.call(d, 'unnormalize', x)
        R = v.call(f, 'eval', x, **kw)
        if v.shape('one value per function', R, 2):
            for k in range(2): v.ob('entry %d' % k, s.same(R.at(k), s.mul(c, u.lin(k, 0, y.at))))

@target('C10', F_ + 'eval')
def eval_point(v):
    """single point: values of all functions at the application point, default keyword arguments"""
    ev(v, False, False, False)
@target('C10', F_ + 'eval')
def eval_rows(v):
    """batch, not vectorized: row i holds the values at point i; call keywords override the stored ones"""
    ev(v, False, True, True)
@target('C10', F_ + 'eval')
def eval_vectorized(v):
    """batch, vectorized: row i holds the values at point i"""
    ev(v, True, True, True)

@target('C10', F_ + 'eval')
def eval_multi(v):
    """one function with p outputs, batch (both modes) and single point"""
    p = v.int('p', 1)
    vec = v.ip.decide(z3.Bool('vectorized'))
    f, d, m, u = wrapper(v, [p], vec)
    n = v.int('N', 1); X = v.arr('X', n, m); Y = v.call(d, 'unnormalize', X)
    R = v.call(f, 'eval', X)
    v.eq_arr('values', R, (n, p), lambda i, o: u.lin(0, o, lambda j: Y.at(i, j)))
    r = v.call(f, 'eval', v.arr('x', m)); y = v.call(d, 'unnormalize', v.arr('x', m))
    v.eq_arr('values at a point', r, (p,), lambda o: u.lin(0, o, y.at))

def gr(v, vec, mode, nf, batch, both=False):
    c1 = v.real('c1')
    nouts = [None] * nf
    f, d, m, u = wrapper(v, nouts, vec, mode, {'c': v.real('c0')})
    D = v.call(d, '_unnormalize_der')
    if batch: n = v.int('N', 1); X = v.arr('X', n, m)
    else: n = None; X = v.arr('x', m)
    Y = v.call(d, 'unnormalize', X)
    if both:
        V, G = v.call(f, '__call__', X, return_grad=True, c=c1)
        if batch: v.shape('values', V, n, nf) and [v.forall('values %d' % k, [n], lambda i: s.same(V.at(i, k), s.mul(c1, u.lin(k, 0, lambda j: Y.at(i, j))))) for k in range(nf)]
        elif v.shape('values', V, nf):
            for k in range(nf): v.ob('value %d' % k, s.same(V.at(k), s.mul(c1, u.lin(k, 0, Y.at))))
    else: G = v.call(f, 'grad', X, c=c1)
    sh = ((n,) if batch else ()) + ((nf,) if nf > 1 else ()) + (m,)
    if not v.shape('shape of the gradient', G, *sh): return
    for k in range(nf):
        pt = (lambda i: (lambda j: Y.at(i, j))) if batch else (lambda i: Y.at)
        ref = lambda i, j: v.sum(m, lambda l: s.mul(s.mul(c1, u.gr(k, 0, l, pt(i))), D.at(l, j)))
        at = lambda i, j: G.at(*(((i,) if batch else ()) + ((k,) if nf > 1 else ()) + (j,)))
        v.forall('gradient of function %d is the user gradient times the derivative of unnormalize' % k, [n if batch else 1, m], lambda i, j: s.same(at(i, j), ref(i, j)))

for _mode in ('grads', 'return_grad'):
    for _vec in (False, True):
        for _batch in (False, True):
            def _t(v, _mode=_mode, _vec=_vec, _batch=_batch):
                nf = 2 if v.ip.decide(z3.Bool('two_functions')) else 1
                gr(v, _vec, _mode, nf, _batch)
            _t.__name__ = 'grad_%s%s_%s' % (_mode, '_vec' if _vec else '', 'rows' if _batch else 'point'); _t.__doc__ = 'grad(X) for user gradients (%s), %svectorized, %s: chain rule through the normalization, documented shape' % (_mode, '' if _vec else 'not ', 'batch' if _batch else 'single point')
            target('C10', F_ + 'grad', F_ + '_shape_grad')(_t)
            def _t(v, _mode=_mode, _vec=_vec, _batch=_batch):
                nf = 2 if v.ip.decide(z3.Bool('two_functions')) else 1
                gr(v, _vec, _mode, nf, _batch, True)
            _t.__name__ = 'call_%s%s_%s' % (_mode, '_vec' if _vec else '', 'rows' if _batch else 'point'); _t.__doc__ = '(value, gradient) of __call__ (%s), %svectorized, %s' % (_mode, '' if _vec else 'not ', 'batch' if _batch else 'single point')
            target('C10', F_ + '__call__', F_ + 'grad', F_ + 'eval')(_t)

@target('C10', F_ + 'grad')
def grad_fd(v):
    """finite differences: forward difference quotients of eval along every coordinate"""
    c1 = v.real('c1')
    f, d, m, u = wrapper(v, [None], False, 'fd', {'c': v.real('c0')})
    x = v.arr('x', m); h = Fraction(1e-7)
    E = z3.Function('in_E', I, RL)     # not used: eval is executed
    y = v.call(d, 'unnormalize', x)
    G = v.call(f, 'grad', x, c=c1)
    D = v.call(d, '_unnormalize_der')
    if v.shape('shape', G, m):
        v.forall('difference quotient of a linear function is its derivative', [m], lambda j: s.same(G.at(j), s.mul(c1, v.sum(m, lambda l: s.mul(u.W[0].at(0, l), D.at(l, j))))))
