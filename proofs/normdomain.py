"""C03: the normalized domain describes the same set."""
from .lib import *
from .normalize import slope, islope
E_ = DOM + 'euclidean:EuclideanDomain.'

def setup(v, cls=DOM + 'linquad:LinQuadDomain', **kw):
    """any domain of the class: arbitrary constraints, arbitrary ordered normalization bounds"""
    m = v.int('m')
    nlb, nub = v.ext('nlb', m, ni=True), v.ext('nub', m, pi=True)
    v.assume_all([m], lambda j: s.le(nlb.at(j), nub.at(j)))
    lb, ub = bounds(v, m)
    n, p, K = v.int('n', 0), v.int('p', 0), v.int('K', 0)
    S_ = Sys(m, lb, ub, v.arr('A', n, m), v.arr('b', n), v.arr('Ae', p, m), v.arr('be', p), quads(v, m, K))
    at = dict(_norm_lb=nlb, _norm_ub=nub, _dimension=Sym(m), _lb=lb, _ub=ub, _A=S_.A, _b=S_.b, _A_eq=S_.Ae, _b_eq=S_.be, _Ls=S_.quad[0], _ys=S_.quad[1], _rhos=S_.quad[2], tol=Fraction(1, 1000000))
    at.update(kw)
    d = v.bare(cls, **at)
    return d, m, nlb, nub, S_

def norm_x(v, d, m):
    x = v.arr('x', m)
    return x, v.call(d, 'normalize', x)

@target('C03', E_ + 'lb_norm', E_ + 'ub_norm', E_ + 'normalize')
def bounds_norm(v):
    """lb_norm <= normalize(x) <= ub_norm exactly when lb <= x <= ub, bound by bound; infinite bounds stay infinite and finite stay finite"""
    d, m, nlb, nub, S_ = setup(v)
    x, xn = norm_x(v, d, m)
    L, U = v.attr(d, 'lb_norm'), v.attr(d, 'ub_norm')
    if v.shape('lb_norm:shape', L, m):
        v.forall('lb_norm infinite iff lb infinite', [m], lambda j: And(Iff(s.isfinite(L.at(j)), s.isfinite(S_.lb.at(j))), Implies(Not(s.isfinite(L.at(j))), s.eq(L.at(j), -INF))))
        v.forall('lb_norm <= normalize(x) <=> lb <= x', [m], lambda j: Iff(s.le(L.at(j), xn.at(j)), s.le(S_.lb.at(j), x.at(j))))
    if v.shape('ub_norm:shape', U, m):
        v.forall('ub_norm infinite iff ub infinite', [m], lambda j: And(Iff(s.isfinite(U.at(j)), s.isfinite(S_.ub.at(j))), Implies(Not(s.isfinite(U.at(j))), s.eq(U.at(j), INF))))
        v.forall('normalize(x) <= ub_norm <=> x <= ub', [m], lambda j: Iff(s.le(xn.at(j), U.at(j)), s.le(x.at(j), S_.ub.at(j))))

def lin_norm(v, An, bn, A_, b_, k):
    d, m, nlb, nub, S_ = setup(v)
    x, xn = norm_x(v, d, m)
    P, q = v.attr(d, An), v.attr(d, bn)
    a, b = getattr(S_, A_), getattr(S_, b_)
    if v.shape(An + ':shape', P, a.shape[0], m) and v.shape(bn + ':shape', q, b.shape[0]):
        v.forall('%s normalize(x) - %s == A x - b, row by row' % (An, bn), [a.shape[0]], lambda i: s.same(
            s.sub(v.sum(m, lambda j: s.mul(P.at(i, j), xn.at(j))), q.at(i)), s.sub(v.sum(m, lambda j: s.mul(a.at(i, j), x.at(j))), b.at(i))))

@target('C03', E_ + 'A_norm', E_ + 'b_norm', E_ + '_center', E_ + '_unnormalize_der')
def ineq_norm(v):
    """normalized inequality rows take the value of the original rows at the original point"""
    lin_norm(v, 'A_norm', 'b_norm', 'A', 'b', 'n')

@target('C03', E_ + 'A_eq_norm', E_ + 'b_eq_norm')
def eq_norm(v):
    """normalized equality rows take the value of the original rows at the original point"""
    lin_norm(v, 'A_eq_norm', 'b_eq_norm', 'Ae', 'be', 'p')

@target('C03', E_ + 'Ls_norm', E_ + 'ys_norm', E_ + 'rhos_norm')
def quad_norm(v):
    """normalized quadratic constraints: L_norm (normalize(x) - y_norm) == L (x - y), same radius"""
    d, m, nlb, nub, S_ = setup(v)
    x, xn = norm_x(v, d, m)
    Ls, ys, rs = v.attr(d, 'Ls_norm'), v.attr(d, 'ys_norm'), v.attr(d, 'rhos_norm')
    K = S_.quad[0].n
    v.ob('number of constraints', And(A.ieq(Ls.n, K), A.ieq(ys.n, K), A.ieq(rs.n, K)))
    k, = v.fresh([K])
    L, y, r = Ls.get(k), ys.get(k), rs.get(k)
    L0, y0, r0 = S_.quad[0].get(k), S_.quad[1].get(k), S_.quad[2].get(k)
    if v.shape('L', L, L0.shape[0], m) and v.shape('y', y, m):
        v.forall('L_norm(normalize(x) - y_norm) == L(x - y)', [L0.shape[0]], lambda i: s.same(
            v.sum(m, lambda j: s.mul(L.at(i, j), s.sub(xn.at(j), y.at(j)))), v.sum(m, lambda j: s.mul(L0.at(i, j), s.sub(x.at(j), y0.at(j))))))
        v.ob('radius unchanged', s.same(r, r0))

def names(v, m): return SList(m, lambda i: 'x')

def same_attr(v, d, dn, m, quad=True, lin=True):
    """the normalized domain carries exactly the normalized constraints"""
    v.ob('dimension', A.ieq(v.attr(dn, '_dimension') if '_dimension' in dn.d else m, m))
    def cmp(name, an):
        a, b = v.attr(dn, name), v.attr(d, an)
        v.eq_arr('%s of the normalized domain is %s' % (name, an), a, b.shape, lambda *i: b.at(*i))
    cmp('lb', 'lb_norm'); cmp('ub', 'ub_norm')
    if lin:
        for q in ('A', 'b', 'A_eq', 'b_eq'): cmp(q, q + '_norm')
    if quad:
        K = v.attr(d, 'Ls').n
        for q in ('Ls', 'ys', 'rhos'):
            a, b = v.attr(dn, q), v.attr(d, q + '_norm')
            v.ob(q + ': number', And(A.ieq(a.n, K), A.ieq(b.n, K)))
            k, = v.fresh([K])
            e, f = a.get(k), b.get(k)
            if q == 'rhos': v.ob('rho', s.same(e, f))
            else: v.eq_arr(q, e, f.shape, lambda *i: f.at(*i))

@target('C03', DOM + 'linquad:LinQuadDomain._normalized_domain')
def linquad_normalized(v):
    """LinQuadDomain.normalized_domain() carries exactly the normalized constraints"""
    d, m, nlb, nub, S_ = setup(v, _names=names(v, v.int('m')), kwargs={})
    same_attr(v, d, v.call(d, 'normalized_domain'), m)

@target('C03', DOM + 'linineq:LinIneqDomain._normalized_domain')
def linineq_normalized(v):
    """LinIneqDomain.normalized_domain() carries exactly the normalized constraints"""
    d, m, nlb, nub, S_ = setup(v, DOM + 'linineq:LinIneqDomain', _names=names(v, v.int('m')), kwargs={})
    same_attr(v, d, v.call(d, 'normalized_domain'), m, quad=False)

@target('C03', DOM + 'box:BoxDomain._normalized_domain')
def box_normalized(v):
    """BoxDomain.normalized_domain() carries exactly the normalized bounds"""
    d, m, nlb, nub, S_ = setup(v, DOM + 'box:BoxDomain', _names=names(v, v.int('m')), kwargs={})
    same_attr(v, d, v.call(d, 'normalized_domain'), m, quad=False, lin=False)

HULL = DOM + 'convexhull:ConvexHullDomain'
@target('C03', HULL + '._normalized_domain')
def hull_normalized(v):
    """ConvexHullDomain.normalized_domain() is the hull of the normalized points with exactly the normalized constraints"""
    m, K = v.int('m'), v.int('K'); X, Xn = v.arr('X', K, m), v.arr('Xn', K, m)
    d, m, nlb, nub, S_ = setup(v, HULL, _names=names(v, m), kwargs={}, _X=X, _X_norm=Xn)
    got = {}
    v.contract(HULL + '.__init__', lambda ip, loc: got.update(loc))
    dn = v.call(d, '_normalized_domain')
    v.eq_arr('points', got['X'], (K, m), lambda i, j: Xn.at(i, j))
    for q, an in (('lb', 'lb_norm'), ('ub', 'ub_norm'), ('A', 'A_norm'), ('b', 'b_norm'), ('A_eq', 'A_eq_norm'), ('b_eq', 'b_eq_norm')):
        b = v.attr(d, an); v.eq_arr(q, got[q], b.shape, lambda *i: b.at(*i))
    KQ = v.attr(d, 'Ls').n
    for q in ('Ls', 'ys', 'rhos'):
        a, b = got[q], v.attr(d, q + '_norm')
        v.ob(q + ': number', And(A.ieq(a.n, KQ), A.ieq(b.n, KQ)))
        k, = v.fresh([KQ]); e, f = a.get(k), b.get(k)
        if q == 'rhos': v.ob('rho', s.same(e, f))
        else: v.eq_arr(q, e, f.shape, lambda *i: f.at(*i))
