"""C21: Gaussian processes."""
from .ext import *
G_ = 'psdr.gp:GaussianProcess'

def sq(t): return s.mul(t, t)
def base(v):
    def cd(P, Q, kind='euclidean'):
        v.ob('squared Euclidean distances', kind == 'sqeuclidean'); P, Q = A.asarr(P), A.asarr(Q)
        return SArr((P.shape[0], Q.shape[0]), lambda i, j: v.sum(P.shape[1], lambda k: sq(s.sub(P.at(i, k), Q.at(j, k)))))
    def pd(P, kind='euclidean'): v.ob('squared Euclidean distances', kind == 'sqeuclidean'); return ('pdist', A.asarr(P))
    def sqf(d):
        if not (isinstance(d, tuple) and d[0] == 'pdist'): raise Unsupported('squareform')
        P = d[1]; return SArr((P.shape[0], P.shape[0]), lambda i, j: v.sum(P.shape[1], lambda k: sq(s.sub(P.at(i, k), P.at(j, k)))))
    ext(v, {'scipy.spatial.distance.cdist': cd, 'scipy.spatial.distance.pdist': pd, 'scipy.spatial.distance.squareform': sqf})

def kernel(v, L, m, p, x, y):
    """exp(-1/2 ||L (x - y)||^2)"""
    w = lambda z, k: v.sum(m, lambda j: s.mul(L.at(k, j), z(j)))
    return s.exp(s.mul(Fraction(-1, 2), v.sum(p, lambda k: sq(s.sub(w(x, k), w(y, k))))))
row = lambda X, i: (lambda j: X.at(i, j))

def gp(v, degree, structure='const', **kw):
    m, M = v.int('m'), v.int('M'); X, y = v.arr('X', M, m), v.arr('y', M); L = v.arr('L', m, m); n = v.int('n') if degree else 0
    nugget = v.real('nugget'); v.assume(s.le(0, nugget)); al, be = v.arr('alpha', M), v.arr('beta', n) if degree else SArr((0,), lambda i: 0)
    o = v.bare(G_, structure=structure, m=v.num(m), X=X, y=y, L=L, alpha=al, beta=be, degree=Sym(v.int('degree', 0)) if degree else None, V=v.arr('V', M, n) if degree else SArr((M, 0), lambda i, j: 0), nugget=nugget, **kw)
    return o, m, M, X, y, L, n, al, be

def do_eval(v, degree):
    base(v); o, m, M, X, y, L, n, al, be = gp(v, degree); N = v.int('N'); Z = v.arr('Z', N, m); W = v.arr('W', N, n) if degree else None
    def bv(z): v.ob('basis at the new points', z is Z); return W
    o.d['basis'] = Ns('basis', {'V': Builtin('V', bv)})
    f = v.call(o, 'eval', Z)
    K = lambda i, a: kernel(v, L, m, m, row(Z, i), row(X, a))
    v.eq_arr('prediction', f, (N,), lambda i: (lambda t: s.add(t, v.sum(n, lambda j: s.mul(W.at(i, j), be.at(j)))) if degree else t)(v.sum(M, lambda a: s.mul(K(i, a), al.at(a)))))

@target('C21', G_ + '.eval')
def eval_poly(v):
    """prediction: kernel-weighted sum of the coefficients plus the polynomial part"""
    do_eval(v, True)
@target('C21', G_ + '.eval')
def eval_plain(v):
    """prediction without a polynomial part"""
    do_eval(v, False)

def spectral(v, name, want=None):
    """scipy.linalg.eigh, contract: eigenvalues w and an orthogonal matrix E with  A E = E diag(w)  (rows and columns of E orthonormal)"""
    got = []
    def eigh(Mx, **k):
        Mx = A.asarr(Mx); n = Mx.shape[0]; t = len(got); w, E = fresh_arr(v, 'ew', n), fresh_arr(v, 'ev', n, n); got.append((Mx, w, E)); return w, E
    ext(v, {'scipy.linalg.eigh': eigh}); return got

@target('C21', G_ + '.eval')
def variance(v):
    """the posterior variance is 1 - k(x) K^+ k(x)^T over the retained eigenvalues of the kernel matrix, with negative values set to zero; the prediction is the same as without it"""
    base(v); got = spectral(v, 'K'); o, m, M, X, y, L, n, al, be = gp(v, False); N = v.int('N'); Z = v.arr('Z', N, m)
    f, c = v.call(o, 'eval', Z, return_cov=True)
    K = lambda i, a: kernel(v, L, m, m, row(Z, i), row(X, a))
    v.eq_arr('prediction', f, (N,), lambda i: v.sum(M, lambda a: s.mul(K(i, a), al.at(a))))
    v.ob('one eigendecomposition', len(got) == 1)
    Kx, w, E = got[0]; v.eq_arr('kernel matrix', Kx, (M, M), lambda a, b: kernel(v, L, m, m, row(X, a), row(X, b)))
    if not v.shape('variances', c, N): return
    v.forall('nonnegative', [N], lambda i: s.le(0, c.at(i)))
    cnt, sel, _ = v.ctx.select(M, lambda q: s.lt(s.const(Fraction(500) * Fraction(2.220446049250313e-16)), w.at(q)))
    cf = lambda i, r: s.div(v.sum(M, lambda b: s.mul(E.at(b, sel(r)), K(i, b))), w.at(sel(r)))
    val = lambda i: s.sub(1, v.sum(M, lambda a: s.mul(K(i, a), v.sum(cnt, lambda r: s.mul(E.at(a, sel(r)), cf(i, r))))))
    v.forall('value', [N], lambda i: s.eq(c.at(i), s.maximum(0, val(i))))

@target('C21', G_ + '.eval')
def variance_data(v):
    """at the data the posterior variance is zero (all eigenvalues of the kernel matrix retained)"""
    v.ctx.selall = True; s.DEFINED[0] = True; base(v)         # eigenvalues are positive: the divisions are defined
    m, M = v.int('m'), v.int('M')
    w, E = v.arr('ew', M), v.arr('ev', M, M); tol = s.const(Fraction(500) * Fraction(2.220446049250313e-16))
    v.assume_all([M], lambda q: s.lt(tol, w.at(q))); pos = v.ctx.foralls[-1]
    v.assume_all([M, M], lambda a, b: s.eq(v.sum(M, lambda q: s.mul(E.at(a, q), E.at(b, q))), s.ite(idx(a) == idx(b), 1, 0))); orth = v.ctx.foralls[-1]
    KK = []
    def eigh(Mx, **k): KK.append(A.asarr(Mx)); return w, E
    ext(v, {'scipy.linalg.eigh': eigh})
    o, m, M, X, y, L, n, al, be = gp(v, False)
    K = lambda i, a: kernel(v, L, m, m, row(X, i), row(X, a))
    v.assume_all([M, M], lambda i, q: s.eq(v.sum(M, lambda b: s.mul(K(i, b), E.at(b, q))), s.mul(w.at(q), E.at(i, q))))      # eigenvectors of the kernel matrix
    eig = v.ctx.foralls[-1]; f, c = v.call(o, 'eval', X, return_cov=True)
    v.eq_arr('decomposition of the kernel matrix', KK[0], (M, M), lambda a, b: K(a, b)); v.shape('variances', c, M)
    cf = lambda i, q: s.mul(s.div(1, w.at(q)), v.sum(M, lambda b: s.mul(E.at(b, q), K(i, b))))
    i, = v.fresh([M])
    T = lambda a: v.sum(M, lambda q: s.mul(E.at(a, q), cf(i, q)))
    l1 = lemma(v, 'coefficients', [M], lambda q: s.eq(cf(i, q), E.at(i, q)), [pos, eig])
    p1 = lemma(v, 'termwise', [M, M], lambda a, q: s.eq(s.mul(E.at(a, q), cf(i, q)), s.mul(E.at(a, q), E.at(i, q))), [l1])
    l2 = lemma(v, 'solution', [M], lambda a: s.eq(T(a), v.sum(M, lambda q: s.mul(E.at(a, q), E.at(i, q)))), [p1, pos])
    lemma(v, 'kernel of a point with itself', [], lambda: s.eq(K(i, i), 1), [])
    l3 = lemma(v, 'solution is a unit vector', [M], lambda a: s.eq(T(a), s.ite(idx(a) == idx(i), 1, 0)), [orth, l2])
    p2 = lemma(v, 'terms of the quadratic form', [M], lambda a: s.eq(s.mul(K(i, a), T(a)), s.ite(idx(a) == idx(i), K(i, i), 0)), [l3])
    v.ctx.singles = [i]; lemma(v, 'quadratic form', [], lambda: s.eq(v.sum(M, lambda a: s.mul(K(i, a), T(a))), K(i, i)), [p2]); v.ctx.singles = ()
    lemma(v, 'zero variance', [], lambda: s.eq(c.at(i), 0), [])

def do_likelihood(v, structure, degree, what):
    base(v); got = spectral(v, 'A'); v.ctx.selall = True
    o, m, M, X, y, L, n, al, be = gp(v, degree, structure); V = o.d['V']; tau = o.d['nugget']
    if structure == 'diag': o.d['tril_ij'] = SList(m, lambda k: (Sym(idx(k)), Sym(idx(k))))
    ell = v.arr('ell', m if structure == 'diag' else 1)
    dg = structure == 'diag'; Ld = (lambda i, j: s.ite(idx(i) == idx(j), s.exp(ell.at(j)), 0)) if dg else L.at
    v.contract(G_ + '._make_L', lambda ip, loc: L)
    K = lambda a, b: kernel(v, L, m, m, row(X, a), row(X, b)); KN = lambda a, b: s.add(K(a, b), s.ite(idx(a) == idx(b), tau, 0))
    r = v.call(o, '_log_marginal_likelihood', ell, **what)
    A0, w0, E0 = got[0]; N = idx(M) + idx(n)
    if not v.shape('saddle point matrix', A0, N, N): return
    v.forall('kernel plus nugget', [M, M], lambda a, b: s.eq(A0.at(a, b), KN(a, b)))
    if degree:
        v.forall('polynomial columns', [M, n], lambda a, j: s.eq(A0.at(a, z3.simplify(idx(M) + j)), V.at(a, j)))
        v.forall('polynomial rows', [n, M], lambda j, a: s.eq(A0.at(z3.simplify(idx(M) + j), a), V.at(a, j)))
        v.forall('zero block', [n, n], lambda j, k: s.eq(A0.at(z3.simplify(idx(M) + j), z3.simplify(idx(M) + k)), 0))
    return o, m, M, X, y, L, n, V, tau, ell, K, KN, got, r

def spectral_solution(v, A0, w, E, N, b, tol):
    """the solution of A x = b over the retained eigenvalues: x_r = sum_q E_rq (E^T b)_q / w_q"""
    cnt, sel, _ = v.ctx.select(N, lambda q: s.lt(tol, s.abs_(w.at(q))))
    return lambda r: v.sum(cnt, lambda q: s.mul(E.at(r, sel(q)), s.mul(s.div(1, w.at(sel(q))), b(sel(q)))))

def do_system(v, degree):
    o, m, M, X, y, L, n, V, tau, ell, K, KN, got, r = do_likelihood(v, 'const', degree, dict(return_obj=False, return_alpha_beta=True))
    A0, w, E = got[0]; N = z3.simplify(idx(M) + idx(n)); al, be = r
    if not v.shape('kernel coefficients', al, M) or not v.shape('polynomial coefficients', be, n): return
    x = spectral_solution(v, A0, w, E, A0.shape[0], lambda q: v.sum(N, lambda a: s.mul(E.at(a, q), s.ite(a < idx(M), y.at(a), 0))) if degree else v.sum(M, lambda a: s.mul(E.at(a, q), y.at(a))), s.const(5 * Fraction(2.220446049250313e-16)))
    v.forall('kernel coefficients', [M], lambda a: s.eq(al.at(a), x(a)))
    if degree: v.forall('polynomial coefficients', [n], lambda j: s.eq(be.at(j), x(z3.simplify(idx(M) + idx(j)))))

@target('C21', G_ + '._log_marginal_likelihood')
def system_plain(v):
    """the coefficients are the spectral solution of (K + tau I) alpha = y with K_ij = exp(-||L (x_i - x_j)||^2 / 2)"""
    do_system(v, False)
@target('C21', G_ + '._log_marginal_likelihood')
def system_poly(v):
    """the coefficients are the spectral solution of [K + tau I, V; V^T, 0] [alpha; beta] = [y; 0]"""
    do_system(v, True)

def do_gradient(v, structure, both=True):
    o, m, M, X, y, L, n, V, tau, ell, K, KN, got, r = do_likelihood(v, structure, False, dict(return_obj=both, return_grad=True))
    A0, w0, E0 = got[0]; v.ob('two eigendecompositions', len(got) == 2); Kx, w, E = got[1]; v.eq_arr('kernel matrix plus nugget', Kx, (M, M), KN)
    x = spectral_solution(v, A0, w0, E0, A0.shape[0], lambda q: v.sum(M, lambda a: s.mul(E0.at(a, q), y.at(a))), s.const(5 * Fraction(2.220446049250313e-16)))
    q_ = lambda z, k: v.sum(m, lambda j: s.mul(L.at(k, j), z(j))); diff = lambda a, b, k: s.sub(q_(row(X, a), k), q_(row(X, b), k))
    if structure == 'diag': dK = lambda a, b, k: s.mul(s.sub(0, sq(diff(a, b, k))), K(a, b))       # L = diag(exp(ell)): d/d ell_k of -1/2 sum_k (e^{ell_k} d_k)^2
    else: dK = lambda a, b, k: s.neg(s.mul(v.sum(m, lambda c: sq(diff(a, b, c))), K(a, b)))     # L = exp(ell) L_0: d/d ell of -1/2 e^{2 ell} ||L_0 d||^2
    obj, g = r if both else (None, r)
    if both: v.ob('objective', s.same(obj, s.add(s.mul(Fraction(1, 2), v.sum(M, lambda a: s.mul(y.at(a), x(a)))), s.mul(Fraction(1, 2), v.sum(M, lambda q: s.log(w.at(q)))))))
    nl = m if structure == 'diag' else 1
    if not v.shape('one entry per parameter', g, nl): return
    tr = lambda k: v.sum(M, lambda i: v.sum(M, lambda q: s.mul(E.at(i, q), s.div(v.sum(M, lambda a: s.mul(E.at(a, q), dK(a, i, k))), w.at(q)))))
    quad = lambda k: v.sum(M, lambda b: s.mul(x(b), v.sum(M, lambda a: s.mul(x(a), dK(b, a, k)))))
    v.ctx.foralls = []
    v.forall('gradient: half of trace(K^-1 dK) - alpha^T dK alpha', [nl], lambda k: s.same(g.at(k), s.sub(s.mul(Fraction(1, 2), tr(k)), s.mul(Fraction(1, 2), quad(k)))))

@target('C21', G_ + '._log_marginal_likelihood')
def gradient_const(v):
    """scalar multiple of a matrix: objective is the negative log marginal likelihood, the gradient the derivative of it (dK = -||L (x_i - x_j)||^2 K)"""
    do_gradient(v, 'const')

@target('C21', G_ + '.eval', G_ + '._log_marginal_likelihood')
def interpolation(v):
    """with the coefficients of the contract of _log_marginal_likelihood (all eigenvalues retained) the prediction at the data is y - nugget * alpha"""
    s.DEFINED[0] = True; base(v); o, m, M, X, y, L, n, x, be = gp(v, False); tau = o.d['nugget']; F = v.ctx.foralls
    def define(name, dims, fn):
        r = fresh_arr(v, name, *dims); v.assume_all(list(dims), lambda *i: s.eq(r.at(*i), fn(*i))); return r, v.ctx.foralls[-1]
    f = v.call(o, 'eval', X); v.shape('prediction', f, M); w, E = v.arr('ew', M), v.arr('ev', M, M); i, = v.fresh([M]); B = (len(v.ctx.facts), len(v.ctx.path))
    K, dk = define('K', (M, M), lambda a, b: kernel(v, L, m, m, row(X, a), row(X, b)))
    lemma(v, 'kernel expansion', [], lambda: s.eq(f.at(i), v.sum(M, lambda a: s.mul(K.at(i, a), x.at(a)))), [dk])
    KN = lambda a, b: s.add(K.at(a, b), s.ite(idx(a) == idx(b), tau, 0)); KE = lambda q: v.sum(M, lambda r: s.mul(K.at(i, r), E.at(r, q)))
    v.assume_all([M], lambda q: s.Not(s.eq(w.at(q), 0))); pos = v.ctx.foralls[-1]
    v.assume_all([M, M], lambda a, b: s.eq(v.sum(M, lambda q: s.mul(E.at(a, q), E.at(b, q))), s.ite(idx(a) == idx(b), 1, 0))); orth = v.ctx.foralls[-1]
    v.assume_all([M, M], lambda i, q: s.eq(v.sum(M, lambda b: s.mul(KN(i, b), E.at(b, q))), s.mul(w.at(q), E.at(i, q)))); eig = v.ctx.foralls[-1]
    Ey, dy = define('Ey', (M,), lambda q: v.sum(M, lambda a: s.mul(E.at(a, q), y.at(a)))); c, dc = define('c', (M,), lambda q: s.mul(s.div(1, w.at(q)), Ey.at(q)))
    v.assume_all([M], lambda a: s.eq(x.at(a), v.sum(M, lambda q: s.mul(E.at(a, q), c.at(q))))); dx = v.ctx.foralls[-1]
    l1 = lemma(v, 'coefficients', [M], lambda q: s.eq(s.mul(w.at(q), c.at(q)), Ey.at(q)), [pos, dc])
    rule = lambda name, terms, using: linrule(v, B, M, name, terms, using)
    P = lambda r, q: s.mul(s.mul(K.at(i, r), E.at(r, q)), c.at(q)); Q = lambda q, a: s.mul(s.mul(E.at(a, q), E.at(i, q)), y.at(a))
    one = lambda r: s.mul(K.at(i, r), x.at(r))
    facts = [rule('expand the coefficients', [(1, one), (-1, lambda r: v.sum(M, lambda q: P(r, q)))], [dx]), v.swap(M, M, P),
        rule('eigenvectors', [(1, lambda q: v.sum(M, lambda r: P(r, q))), (-1, lambda q: s.mul(Ey.at(q), E.at(i, q))), (tau, lambda q: s.mul(E.at(i, q), c.at(q)))], [eig, l1]),
        rule('expand the data', [(1, lambda q: s.mul(Ey.at(q), E.at(i, q))), (-1, lambda q: v.sum(M, lambda a: Q(q, a)))], [dy]), v.swap(M, M, Q)]
    p2 = lemma(v, 'orthogonality, termwise', [M], lambda a: s.eq(v.sum(M, lambda q: Q(q, a)), s.ite(idx(a) == idx(i), y.at(i), 0)), [orth], B)
    v.ctx.singles = [i]; lemma(v, 'orthogonality', [], lambda: s.eq(v.sum(M, lambda a: v.sum(M, lambda q: Q(q, a))), y.at(i)), [p2], B); v.ctx.singles = ()
    for k in facts: v.assume(k())
    v.assume(s.eq(s.mul(tau, x.at(i)), s.mul(tau, v.sum(M, lambda q: s.mul(E.at(i, q), c.at(q))))))       # an instance of the definition of x
    lemma(v, 'interpolation', [], lambda: s.eq(f.at(i), s.sub(y.at(i), s.mul(tau, x.at(i)))), [])

def make_L(v, structure, ell, m, **kw): return v.call(v.bare(G_, structure=structure, m=v.num(m), **kw), '_make_L', ell)

@target('C21', G_ + '._make_L')
def L_scalar(v):
    """const: e^ell I"""
    m = v.int('m'); e = v.arr('ell', 1); v.eq_arr('L', make_L(v, 'const', e, m), (m, m), lambda i, j: s.ite(idx(i) == idx(j), s.exp(e.at(0)), 0))
@target('C21', G_ + '._make_L')
def L_mult(v):
    """scalar multiple: e^ell L0"""
    m = v.int('m'); e, L0 = v.arr('ell', 1), v.arr('L0', m, m); v.eq_arr('L', make_L(v, 'scalar_mult', e, m, Lfixed=L0), (m, m), lambda i, j: s.mul(s.exp(e.at(0)), L0.at(i, j)))
@target('C21', G_ + '._make_L')
def L_diag(v):
    """diagonal: diag(e^ell)"""
    m = v.int('m'); e = v.arr('ell', m); v.eq_arr('L', make_L(v, 'diag', e, m), (m, m), lambda i, j: s.ite(idx(i) == idx(j), s.exp(e.at(j)), 0))

def tril(v, m):
    e = v.arr('ell', m * (m + 1) // 2); got = []; ij = [(i, j) for i in range(m) for j in range(i + 1)]
    def expm(T): got.append(A.asarr(T)); return fresh_arr(v, 'expm', m, m)
    ext(v, {'scipy.linalg.expm': expm}); e.dtype = 'float'
    R = make_L(v, 'tril', e, m, tril_flat=A.asarr([i * m + j for i, j in ij]), tril_ij=ij)
    v.ob('one matrix exponential', len(got) == 1); v.shape('argument of expm', got[0], m, m)
    for a in range(m):
        for b in range(m): v.ob('argument of expm', s.eq(got[0].at(a, b), e.at(ij.index((a, b))) if (a, b) in ij else 0))

def do_fit(v, structure, degree, flat=False):
    base(v); o = v.bare(G_, structure=structure, rank=None, degree=v.num(v.int('degree', 0)) if degree else None, nugget=v.real('nugget'))
    m, M = v.int('m'), v.int('M'); X, y = v.arr('X', M, m), v.arr('y', M); n = v.int('n'); V = v.arr('V', M, n); mk = []
    if degree:
        def make(ip, loc): v.ob('polynomial basis on the data', loc.get('X') is not None and s.same(loc['degree'], o.d['degree']) is not False); v.eq_arr('data of the basis', loc['X'], (M, m), X.at)
        def bv(z): v.eq_arr('basis at the data', z, (M, m), X.at); return V
        bas = Ns('basis', {'V': Builtin('V', bv)}); v.ip.modules
        raise Unsupported('basis')
    got = []; nl = m if structure == 'diag' else 1; res = v.arr('res', m) if structure == 'diag' else v.arr('res', 1)
    def minimize(fun, x0, jac=None, **k):
        got.append((fun, x0, jac)); return Ns('res', {'x': res})
    ext(v, {'scipy.optimize.minimize': minimize})
    L0 = v.arr('L0', *((m,) if flat else (m, m))); Lr = v.arr('Lr', m, m); al, be = v.arr('alpha', M), v.arr('beta', 0)
    def mkL(ip, loc): v.ob('distance matrix of the optimizer result', loc['ell'] is res); return Lr
    def lml(ip, loc):
        v.ob('coefficients of the optimizer result', loc['ell'] is res); v.ob('coefficients requested', loc['return_alpha_beta'] is True); v.ob('on the given data', loc['X'] is None and loc['y'] is None)
        v.eq_arr('data', o.d['X'], (M, m), X.at); v.eq_arr('values', o.d['y'], (M,), y.at); v.eq_arr('no polynomial columns', o.d['V'], (M, 0), lambda i, j: 0)
        return (al, be)
    v.contract(G_ + '._make_L', mkL); v.contract(G_ + '._log_marginal_likelihood', lml)
    v.call(o, 'fit', X, y, L0=L0)
    v.ob('one optimization', len(got) == 1); fun, x0, jac = got[0]
    v.ob('stored', o.d['L'] is Lr and o.d['alpha'] is al and o.d['beta'] is be)
    if structure == 'diag': v.eq_arr('initial diagonal', x0, (m,), lambda i: L0.at(i) if flat else L0.at(i, i))
    v.eq_arr('data', o.d['X'], (M, m), X.at)

@target('C21', G_ + '.fit', G_ + '._fit', G_ + '._fit_init')
def fit_const(v):
    """the fit stores the distance matrix and the coefficients of the optimizer's result, on the given data"""
    do_fit(v, 'const', False)
@target('C21', G_ + '.fit', G_ + '._fit', G_ + '._fit_init')
def fit_diag(v):
    """the same with a diagonal distance matrix; the initial parameters are the diagonal of L0"""
    do_fit(v, 'diag', False)
@target('C21', G_ + '.fit', G_ + '._fit', G_ + '._fit_init')
def fit_diag_flat(v):
    """the same with L0 given as a vector"""
    do_fit(v, 'diag', False, True)
@target('C21', G_ + '._make_L')
def L_tril2(v):
    """lower triangular (two inputs): the matrix exponential of the lower triangular matrix of the parameters"""
    tril(v, 2)
@target('C21', G_ + '._make_L')
def L_tril3(v):
    """lower triangular (three inputs)"""
    tril(v, 3)
