"""C16: active subspaces.  The singular value decomposition enters by contract (orthogonal factors, sorted nonnegative values,
A A' = U diag(s^2) U')."""
from .ext import *
AS, SB = 'psdr.subspace:ActiveSubspace', 'psdr.subspace:SubspaceBasedDimensionReduction'

def svd(v, st):
    def fn(M, full_matrices=True, **k):
        M = A.asarr(M); g = M.getter(); m, N = M.shape
        v.ob('full decomposition', full_matrices is True)
        U = fresh_arr(v, 'U', m, m); q = v.ctx.imin(m, N) if hasattr(v.ctx, 'imin') else z3.If(idx(m) <= idx(N), idx(m), idx(N))
        sv = fresh_arr(v, 's', q)
        v.assume_all([q], lambda i: s.le(0, sv.at(i)))
        v.assume_all([q, q], lambda i, j: Implies(idx(i) <= idx(j), s.le(sv.at(j), sv.at(i))))
        v.assume_all([m, m], lambda a, b: s.eq(v.sum(m, lambda i: s.mul(U.at(i, a), U.at(i, b))), s.ite(idx(a) == idx(b), 1, 0)))
        pad = lambda l: s.ite(idx(l) < idx(q), sv.at(l), 0)
        v.forall('entries are numbers', [m, N], lambda i, k: s.same(g(i, k), Sym(S(g(i, k)).e)))
        g1 = g; g = lambda i, k: Sym(S(g1(i, k)).e)
        v.assume_all([m, m], lambda i, j: s.eq(v.sum(m, lambda l: s.mul(s.mul(U.at(i, l), U.at(j, l)), s.mul(pad(l), pad(l)))), v.sum(N, lambda k: s.mul(g(i, k), g(j, k)))))
        st.update(A=g, U=U, s=sv, pad=pad, q=q)
        return U, sv, fresh_arr(v, 'VT', N, N)
    return fn

def do_fit(v, weighted):
    st = {}; ext(v, {'scipy.linalg.svd': svd(v, st)})
    m, N = v.int('m'), v.int('N'); G = v.arr('G', N, m); w = v.arr('w', N)
    v.assume_all([N], lambda k: s.le(0, w.at(k)))
    o = v.new(AS); g0 = G.getter()
    v.call(o, 'fit', G, w) if weighted else v.call(o, 'fit', G)
    wt = (lambda k: w.at(k)) if weighted else (lambda k: s.div(1, Sym(N)))
    C, U, sv = v.attr(o, 'C'), v.attr(o, 'U'), v.attr(o, 'singvals')
    U0, pad = st['U'], st['pad']
    v.eq_arr('padded singular values', sv, (m,), pad)
    v.have_all('weighted outer products', [m, m], lambda i, j: s.eq(v.sum(N, lambda k: s.mul(st['A'](i, k), st['A'](j, k))), v.sum(N, lambda k: s.mul(wt(k), s.mul(G.at(k, i), G.at(k, j))))))
    v.eq_arr('C is the weighted sum of outer products', C, (m, m), lambda i, j: v.sum(N, lambda k: s.mul(wt(k), s.mul(G.at(k, i), G.at(k, j)))))
    if not v.shape('directions', U, m, m): return
    v.forall('orientation only flips signs', [m], lambda a: Or(v.all(m, lambda i: s.eq(U.at(i, a), U0.at(i, a))), v.all(m, lambda i: s.eq(U.at(i, a), s.neg(U0.at(i, a))))))
    return o, m, N, G, w, U, U0, sv, C, pad

@target('C16', AS + '.fit', AS + '.U', AS + '.C', AS + '.singvals', SB + '._init_dim', SB + '._fix_subspace_signs_grads')
def fit_weighted(v):
    """C is the weighted sum of outer products of the gradients; singular values padded; directions are the eigenvectors up to sign"""
    do_fit(v, True)
@target('C16', AS + '.fit')
def fit_equal(v):
    """equal weights summing to one when none are given"""
    do_fit(v, False)

@target('C16', AS + '.fit')
def fit_order(v):
    """influences are ordered and nonnegative"""
    r = do_fit(v, True)
    if r is None: return
    o, m, N, G, w, U, U0, sv, C, pad = r
    v.forall('ordered', [m, m], lambda i, j: Implies(idx(i) <= idx(j), s.le(sv.at(j), sv.at(i))))

def signs(v):
    m, n, N = v.int('m'), v.int('n'), v.int('N'); U, G = v.arr('U', m, n), v.arr('G', N, m); o = v.new(AS); o.d['_dimension'] = Sym(m)
    u = U.getter(); R = v.call(o, '_fix_subspace_signs_grads', U, G)
    sl = lambda a: v.sum(N, lambda k: v.sum(m, lambda i: s.mul(G.at(k, i), U.at(i, a))))
    return m, n, N, U, G, R, sl

@target('C16', SB + '._fix_subspace_signs_grads')
def signs_grads(v):
    """every column is multiplied by +1 or -1, the average slopes become nonnegative"""
    m, n, N, U, G, R, sl = signs(v)
    v.eq_arr('columns flipped by the sign of the average slope', R, (m, n), lambda i, a: s.ite(s.lt(sl(a), 0), s.neg(U.at(i, a)), U.at(i, a)))
    v.forall('average slope nonnegative', [n], lambda a: s.le(0, v.sum(N, lambda k: v.sum(m, lambda i: s.mul(G.at(k, i), R.at(i, a))))))

@target('C16', SB + '._fix_subspace_signs_grads')
def signs_gram(v):
    """flipping signs keeps inner products of columns up to sign: orthonormal columns stay orthonormal"""
    m, n, N, U, G, R, sl = signs(v)
    v.assume_all([n, n], lambda a, b: s.eq(v.sum(m, lambda i: s.mul(U.at(i, a), U.at(i, b))), s.ite(idx(a) == idx(b), 1, 0)))
    v.forall('orthonormal', [n, n], lambda a, b: s.eq(v.sum(m, lambda i: s.mul(R.at(i, a), R.at(i, b))), s.ite(idx(a) == idx(b), 1, 0)))

@target('C16', SB + '._fix_subspace_signs')
def signs_dispatch(v):
    """gradients are preferred over samples"""
    m, n, N = v.int('m'), v.int('n'), v.int('N'); U, G = v.arr('U', m, n), v.arr('G', N, m); o = v.new(AS)
    R = v.call(o, '_fix_subspace_signs', U, v.arr('X', N, m), v.arr('f', N), G)
    sl = lambda a: v.sum(N, lambda k: v.sum(m, lambda i: s.mul(G.at(k, i), U.at(i, a))))
    v.eq_arr('oriented by the gradients', R, (m, n), lambda i, a: s.ite(s.lt(sl(a), 0), s.neg(U.at(i, a)), U.at(i, a)))

@target('C16', AS + '.fit_function')
def fit_function(v):
    """the gradients at the nodes of a quadrature rule are used with the weights of the rule"""
    N, Nq, m = v.int('Nreq'), v.int('Nq'), v.int('m')
    X, w, G = v.arr('X', Nq, m), v.arr('w', Nq), v.arr('G', Nq, m); st = {}
    o = v.new(AS); dom = v.bare(AS); fun = v.bare(AS); fun.d['domain'] = dom
    def rule(n): v.ob('requested number of nodes', s.eq(n, Sym(N))); return X, w
    def grad(x): v.eq_arr('gradients at the nodes', x, (Nq, m), lambda k, i: X.at(k, i)); return G
    def fit(g, weights=None):
        st['n'] = st.get('n', 0) + 1
        v.eq_arr('gradients used', g, (Nq, m), lambda k, i: G.at(k, i))
        v.ob('weights given', weights is not None)
        if weights is not None: v.eq_arr('weights used', weights, (Nq,), lambda k: w.at(k))
    dom.d['quadrature_rule'] = Builtin('quadrature_rule', rule); fun.d['grad'] = Builtin('grad', grad); o.d['fit'] = Builtin('fit', fit)
    v.call(o, 'fit_function', fun, v.num(N)); v.ob('fitted once', st.get('n') == 1)

def shadow(v, dim, own):
    m, n, M = v.int('m'), v.int('n', lo=dim), v.int('M'); X, f, U = v.arr('X', M, m), v.arr('f', M), v.arr('U', m, n)
    o = v.new(AS); o.d['_dimension'] = v.num(m); st = {}
    v.contract('psdr.pgf:PGF.write', lambda ip, loc: st.update(p=loc['self'], n=st.get('n', 0) + 1, f=loc['filename']))
    if own: o.d['_U'] = U; v.call(o, 'shadow_plot', X, f, dim=dim, ax=None, pgfname='out')
    else: v.call(o, 'shadow_plot', X, f, dim=dim, U=U, ax=None, pgfname='out')
    v.ob('written once', st.get('n') == 1 and st.get('f') == 'out')
    if 'p' not in st: return
    p = st['p']; names = ['y', 'fX'] if dim == 1 else ['y1', 'y2', 'fX']
    v.ob('columns', list(v.attr(p, 'column_names')) == names)
    for q in range(dim): v.eq_arr('projected samples', v.call(p, 'keys') and v.attr(p, 'columns')[q], (M,), lambda k: v.sum(m, lambda i: s.mul(X.at(k, i), U.at(i, q))))
    v.eq_arr('values', v.attr(p, 'columns')[dim], (M,), lambda k: f.at(k))

@target('C16', SB + '.shadow_plot')
def shadow_1(v):
    """the plotted coordinates are the inner products of the samples with the first direction"""
    shadow(v, 1, True)
@target('C16', SB + '.shadow_plot')
def shadow_1U(v):
    """as above for directions given explicitly"""
    shadow(v, 1, False)
@target('C16', SB + '.shadow_plot')
def shadow_2(v):
    """two directions"""
    shadow(v, 2, True)
