"""C09: densities of the random domains."""
from .ext import *
N_, U_, LN, R_ = DOM + 'normal:NormalDomain', DOM + 'uniform:UniformDomain', DOM + 'lognormal:LogNormalDomain', DOM + 'random:RandomDomain'
PI2 = None

@target('C09', U_ + '._pdf', R_ + '.pdf')
def uniform_pdf(v):
    """the uniform density is 1/volume inside, 0 outside, for every row"""
    m, n = v.int('m'), v.int('N')
    lb, ub = v.arr('lb', m), v.arr('ub', m)
    v.assume_all([m], lambda j: s.lt(lb.at(j), ub.at(j)))
    d = v.bare(U_, _dimension=Sym(m), _lb=lb, _ub=ub, tol=Fraction(1, 10**6))
    X = v.arr('X', n, m)
    ins = v.arr('inside', n, kind='b')
    v.contract(DOM + 'domain:Domain.isinside', lambda ip, loc: ins)
    v.contract(DOM + 'euclidean:EuclideanDomain.isinside', lambda ip, loc: ins)
    p = v.call(d, 'pdf', X)
    vol = v.ctx.prod_(m, lambda j: s.sub(ub.at(j), lb.at(j)))
    if v.shape('shape', p, n):
        v.forall('density', [n], lambda i: And(Implies(ins.at(i), s.same(p.at(i), s.div(1, vol))), Implies(Not(ins.at(i)), s.same(p.at(i), s.div(0, vol)))))

def normal(v, trunc):
    """run the constructor on an arbitrary mean and covariance"""
    m = v.int('m')
    mean, cov = v.arr('mean', m), v.arr('cov', m, m)
    v.assume_all([m, m], lambda i, j: s.same(cov.at(i, j), cov.at(j, i)))
    L, Li = v.arr('chol', m, m), v.arr('cholinv', m, m)
    clip = v.real('clip', pos=True); tau = v.real('tau', pos=True); v.assume(S(tau).e < 1)
    det = v.real('det', pos=True)
    def chol(a, lower=False):
        v.eq_arr('cholesky of the covariance', A.asarr(a), (m, m), lambda i, j: cov.at(i, j)); v.ob('lower Cholesky factor', lower is True)
        return L
    def tri(a, b, lower=False, trans=0, **k):
        v.eq_arr('triangular system of the Cholesky factor', A.asarr(a), (m, m), lambda i, j: L.at(i, j))
        v.eq_arr('right hand side is the identity', A.asarr(b), (m, m), lambda i, j: s.ite(idx(i) == idx(j), 1, 0))
        v.ob('lower, not transposed', lower is True and trans in (0, 'N'))
        return Li
    def isf(q, df):
        v.ob('chi2 with m degrees of freedom at the truncation', And(A.ieq(df, m), s.same(q, tau)))
        return clip
    def dt(a):
        v.eq_arr('determinant of the covariance', A.asarr(a), (m, m), lambda i, j: cov.at(i, j)); return det
    ext(v, {'scipy.linalg.cholesky': chol, 'scipy.linalg.solve_triangular': tri, 'scipy.stats.chi2.isf': isf, 'scipy.linalg.det': dt})
    d = v.new(N_, mean, cov, truncate=tau if trunc else None)
    return d, m, mean, cov, L, Li, clip, tau, det

def maha(v, Li, mean, m, x):
    """squared norm of Linv (x - mean)"""
    return v.sum(m, lambda i: (lambda t: s.mul(t, t))(v.sum(m, lambda j: s.mul(Li.at(i, j), s.sub(x(j), mean.at(j))))))

@target('C09 C01', N_ + '.__init__', N_ + '._isinside')
def normal_truncated(v):
    """the truncated normal contains x iff |Linv (x - mean)|^2 <= chi2.isf(truncate, m) (within tol)"""
    d, m, mean, cov, L, Li, clip, tau, det = normal(v, True)
    n, tol = v.int('N'), v.real('tol', 0)
    X = v.arr('X', n, m)
    r = v.call(d, '_isinside', X, tol=tol)
    if v.shape('shape', r, n):
        v.forall('inside iff in the ball', [n], lambda i: Iff(r.at(i), s.le(s.sqrt(maha(v, Li, mean, m, lambda j: X.at(i, j))), s.add(s.sqrt(clip), tol))))
    v.eq_arr('mean', d.d['mean'], (m,), lambda j: mean.at(j)); v.eq_arr('cov', d.d['cov'], (m, m), lambda i, j: cov.at(i, j))

@target('C09 C01', N_ + '.__init__', N_ + '._isinside')
def normal_full(v):
    """the full normal contains every point"""
    d, m = normal(v, False)[:2]
    n, tol = v.int('N'), v.real('tol', 0)
    X = v.arr('X', n, m)
    r = v.call(d, '_isinside', X, tol=tol)
    v.eq_arr('everything is inside', r, (n,), lambda i: True)

def pdf_ok(v, d, m, mean, Li, det, tau, ins, X, n):
    p = v.call(d, 'pdf', X)
    q = s.mul(s.power(s.mul(2, v.ip.np.d['pi']), Sym(m)), s.abs_(det))
    if v.shape('shape', p, n):
        def ref(i):
            g = s.div(s.exp(s.mul(Fraction(-1, 2), maha(v, Li, mean, m, lambda j: X.at(i, j)))), s.sqrt(q))
            if tau is None: return g
            return s.ite(ins.at(i), s.div(g, s.sub(1, tau)), 0)
        v.forall('density', [n], lambda i: s.same(p.at(i), ref(i)))

@target('C09', N_ + '._pdf')
def normal_pdf(v):
    """the normal density is exp(-|Linv (x-mean)|^2/2)/sqrt((2 pi)^m det cov)"""
    d, m, mean, cov, L, Li, clip, tau, det = normal(v, False)
    n = v.int('N'); X = v.arr('X', n, m)
    v.assume(S(s.power(s.mul(2, v.ip.np.d['pi']), Sym(m))).e > 0)
    pdf_ok(v, d, m, mean, Li, det, None, None, X, n)

@target('C09', N_ + '._pdf')
def normal_pdf_truncated(v):
    """the truncated normal density is the normal density over 1 - truncate inside, zero outside"""
    d, m, mean, cov, L, Li, clip, tau, det = normal(v, True)
    n = v.int('N'); X = v.arr('X', n, m)
    v.assume(S(s.power(s.mul(2, v.ip.np.d['pi']), Sym(m))).e > 0)
    ins = v.arr('inside', n, kind='b')
    v.contract(DOM + 'domain:Domain.isinside', lambda ip, loc: ins); v.contract(DOM + 'euclidean:EuclideanDomain.isinside', lambda ip, loc: ins)
    pdf_ok(v, d, m, mean, Li, det, tau, ins, X, n)

@target('C09', N_ + '._sample')
def normal_sample(v):
    """samples of the full normal are mean + L z with z the standard normal draws, row by row"""
    d, m, mean, cov, L, Li, clip, tau, det = normal(v, False)
    n = v.int('draw'); Z = v.arr('Z', n, m)
    def randn(*sh):
        v.ob('draws one standard normal per coordinate and row', len(sh) == 2 and And(A.ieq(sh[0], n), A.ieq(sh[1], m))); return Z
    ext(v, {'numpy.random.randn': randn})
    X = v.call(d, '_sample', Sym(n))
    v.eq_arr('sample', X, (n, m), lambda i, j: s.add(mean.at(j), v.sum(m, lambda k: s.mul(L.at(j, k), Z.at(i, k)))))

def lognormal(v, trunc):
    mu, cov, off = v.real('mu'), v.real('cov', pos=True), v.real('offset')
    sc = v.real('scaling', pos=True); tau = v.real('tau', pos=True); v.assume(S(tau).e < 1)
    nd = v.bare(N_, mean=A.asarr([mu]), cov=A.asarr([[cov]]), _dimension=1)
    d = v.bare(LN, normal_domain=nd, mean=mu, cov=cov, scaling=sc, offset=off, truncate=tau if trunc else None, tol=Fraction(1, 10**6))
    return d, mu, cov, off, sc, tau

def ln_pdf(v, trunc):
    d, mu, cov, off, sc, tau = lognormal(v, trunc)
    n = v.int('N'); X = v.arr('X', n, 1)
    ins = v.arr('inside', n, kind='b')
    v.contract(DOM + 'domain:Domain.isinside', lambda ip, loc: ins); v.contract(DOM + 'euclidean:EuclideanDomain.isinside', lambda ip, loc: ins)
    p = v.call(d, 'pdf', X)
    if not v.shape('shape', p, n): return
    def ref(i):
        z = s.div(s.sub(X.at(i, 0), off), sc)
        lz = Sym(s.uf('log')(v.ctx.canon(S(z).e) if hasattr(v.ctx, 'canon') else S(z).e))
        t = s.sub(lz, mu)
        g = s.div(s.exp(s.neg(s.div(s.mul(t, t), s.mul(2, cov)))), s.mul(z, s.sqrt(s.mul(s.mul(2, v.ip.np.d['pi']), cov))))
        if trunc: g = s.ite(ins.at(i), s.div(g, s.sub(1, tau)), 0)
        return s.ite(s.gt(z, 0), g, 0)
    i, = v.fresh([n])
    w = s.sqrt(s.mul(s.mul(2, v.ip.np.d['pi']), cov))
    v.have('positive deviation', s.gt(w, 0))
    z_ = lambda i: s.div(s.sub(X.at(i, 0), off), sc)
    v.have_all('nonzero denominator', [n], lambda i: Implies(s.gt(z_(i), 0), s.gt(s.mul(z_(i), w), 0)))
    if trunc: v.ob('outside', Implies(Not(ins.at(i)), s.same(p.at(i), 0)))
    v.ob('below the support', Implies(s.le(X.at(i, 0), off), s.same(p.at(i), 0)))
    v.forall('log-normal density (up to the constant 1/scaling, see known findings)', [n], lambda i: s.same(p.at(i), ref(i)))

@target('C09', LN + '._pdf')
def lognormal_pdf(v):
    """log-normal density"""
    ln_pdf(v, False)

@target('C09', LN + '._pdf')
def lognormal_pdf_truncated(v):
    """truncated log-normal density"""
    ln_pdf(v, True)

@target('C09', LN + '._sample')
def lognormal_sample(v):
    """log-normal samples are offset + scaling exp(normal sample), row by row"""
    d, mu, cov, off, sc, tau = lognormal(v, False)
    n = v.int('draw', 2); Y = v.arr('Y', n, 1)
    def smp(ip, loc): v.ob('asks for that many', A.ieq(loc['draw'], n)); return Y
    v.contract(DOM + 'euclidean:EuclideanDomain.sample', smp); v.contract(DOM + 'domain:Domain.sample', smp)
    X = v.call(d, '_sample', Sym(n))
    v.eq_arr('sample', X, (n, 1), lambda i, j: s.add(off, s.mul(sc, s.exp(Y.at(i, 0)))))

@target('C09', LN + '.__init__')
def lognormal_init(v):
    """bounds: offset and infinity; truncated: offset + scaling exp of the bounds of the truncated normal"""
    mu, cov, off = v.real('mu'), v.real('cov', pos=True), v.real('offset')
    sc = v.real('scaling', pos=True); tau = v.real('tau', pos=True); v.assume(S(tau).e < 1)
    nl, nu = v.arr('nlb', 1), v.arr('nub', 1)
    nd = v.bare(N_, mean=A.asarr([mu]), cov=A.asarr([[cov]]), _dimension=1, _norm_lb=nl, _norm_ub=nu)
    tr = v.ip.decide(z3.Bool('truncated'))
    def mk(ip, loc):
        o = loc['self']; o.d.update(nd.d); v.ob('truncation passed on', (loc['truncate'] is None) == (not tr)); return None
    v.contract(N_ + '.__init__', mk)
    d = v.new(LN, mu, cov, offset=off, scaling=sc, truncate=tau if tr else None)
    lb, ub = v.attr(d, 'lb'), v.attr(d, 'ub')
    v.eq_arr('lb', lb, (1,), lambda j: s.add(off, s.mul(sc, s.exp(nl.at(0)))) if tr else off)
    v.eq_arr('ub', ub, (1,), lambda j: s.add(off, s.mul(sc, s.exp(nu.at(0)))) if tr else INF)
    v.ob('parameters kept', And(s.same(d.d['mean'], mu), s.same(d.d['cov'], cov), s.same(d.d['offset'], off), s.same(d.d['scaling'], sc)))
