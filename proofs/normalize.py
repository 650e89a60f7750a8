from .lib import *

def dom(v, m):
    """any Euclidean domain: normalization bounds in R u {-inf} / R u {+inf}, ordered"""
    nlb, nub = v.ext('nlb', m, ni=True), v.ext('nub', m, pi=True)
    v.assume_all([m], lambda j: s.le(nlb.at(j), nub.at(j)))
    d = v.bare(DOM + 'linquad:LinQuadDomain', _norm_lb=nlb, _norm_ub=nub, _dimension=Sym(m))
    return d, nlb, nub

def slope(nlb, nub, j):
    b = And(s.isfinite(nlb.at(j)), s.isfinite(nub.at(j)), s.ne(nlb.at(j), nub.at(j)))
    return s.ite(b, s.div(2, s.sub(nub.at(j), nlb.at(j))), 1)
def islope(nlb, nub, j):
    b = And(s.isfinite(nlb.at(j)), s.isfinite(nub.at(j)), s.ne(nlb.at(j), nub.at(j)))
    return s.ite(b, s.div(s.sub(nub.at(j), nlb.at(j)), 2), 1)

@target('C02', 'psdr.domains.euclidean:EuclideanDomain._unnormalize_der', 'psdr.domains.euclidean:EuclideanDomain._normalize_der')
def norm_der(v):
    """derivative matrices are diagonal, reciprocal, with half-width entries"""
    m = v.int('m'); d, nlb, nub = dom(v, m)
    D, Di = v.call(d, '_normalize_der'), v.call(d, '_unnormalize_der')
    v.eq_arr('normalize_der', D, (m, m), lambda i, j: s.ite(A.ieq(i, j), slope(nlb, nub, i), 0))
    v.eq_arr('unnormalize_der', Di, (m, m), lambda i, j: s.ite(A.ieq(i, j), islope(nlb, nub, i), 0))
    v.forall('inverse', [m], lambda i: s.same(s.mul(D.at(i, i), Di.at(i, i)), 1))

@target('C02', 'psdr.domains.euclidean:EuclideanDomain.normalize', 'psdr.domains.euclidean:EuclideanDomain.unnormalize')
def norm_roundtrip(v):
    """unnormalize(normalize(X)) == X == normalize(unnormalize(X)), 2-d input"""
    m = v.int('m'); N = v.int('N'); d, nlb, nub = dom(v, m)
    X = v.arr('X', N, m)
    Y = v.call(d, 'normalize', X)
    Z = v.call(d, 'unnormalize', Y)
    v.eq_arr('unnorm(norm(X))==X', Z, (N, m), lambda i, j: X.at(i, j))
    W = v.call(d, 'normalize', v.call(d, 'unnormalize', X))
    v.eq_arr('norm(unnorm(X))==X', W, (N, m), lambda i, j: X.at(i, j))
    # affine with derivative _normalize_der
    v.forall('affine', [N, N, m], lambda a, b, j: s.same(s.sub(Y.at(a, j), Y.at(b, j)), s.mul(slope(nlb, nub, j), s.sub(X.at(a, j), X.at(b, j)))))

@target('C02', 'psdr.domains.euclidean:EuclideanDomain.normalize')
def norm_1d(v):
    """1-d input is the row of the 2-d result"""
    m = v.int('m'); d, nlb, nub = dom(v, m)
    x = v.arr('x', m)
    y = v.call(d, 'normalize', x); z = v.call(d, 'unnormalize', y)
    v.eq_arr('roundtrip', z, (m,), lambda j: x.at(j))

@target('C02', 'psdr.domains.euclidean:EuclideanDomain._normalize')
def norm_bounds(v):
    """finite distinct bounds map onto [-1,1]"""
    m = v.int('m'); d, nlb, nub = dom(v, m)
    N = v.int('N'); X = v.arr('X', N, m)
    Y = v.call(d, 'normalize', X)
    b = lambda j: And(s.isfinite(nlb.at(j)), s.isfinite(nub.at(j)), s.ne(nlb.at(j), nub.at(j)))
    v.forall('lower bound -> -1', [N, m], lambda i, j: Implies(And(b(j), s.eq(X.at(i, j), nlb.at(j))), s.same(Y.at(i, j), -1)))
    v.forall('upper bound -> 1', [N, m], lambda i, j: Implies(And(b(j), s.eq(X.at(i, j), nub.at(j))), s.same(Y.at(i, j), 1)))
    v.forall('order preserved', [N, N, m], lambda a, c, j: Implies(s.lt(X.at(a, j), X.at(c, j)), s.lt(Y.at(a, j), Y.at(c, j))))
