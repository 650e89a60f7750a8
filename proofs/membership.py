from .lib import *
E_ = DOM + 'euclidean:EuclideanDomain.'
TOL = Fraction(1, 100000)

def linquad(v, m, quad=True, ineq=True, eq=True):
    lb, ub = bounds(v, m)
    n, p, K = v.int('n', 0), v.int('p', 0), v.int('K', 0)
    kw = dict(lb=lb, ub=ub)
    S_ = Sys(m, lb, ub)
    if ineq: S_.A, S_.b = v.arr('A', n, m), v.arr('b', n); kw.update(A=S_.A, b=S_.b)
    if eq: S_.Ae, S_.be = v.arr('Ae', p, m), v.arr('be', p); kw.update(A_eq=S_.Ae, b_eq=S_.be)
    if quad:
        S_.quad = quads(v, m, K); kw.update(Ls=S_.quad[0], ys=S_.quad[1], rhos=S_.quad[2])
    return kw, S_

def check_isinside(v, d, S_, m, tol=TOL, kw={}):
    N = v.int('N'); X = v.arr('X', N, m)
    r = v.call(d, 'isinside', X, **kw)
    if v.shape('shape', r, N):
        v.forall('isinside(X)[i] <=> X[i] satisfies every constraint within tol', [N], lambda i: Iff(r.at(i), in_sys(v, S_, lambda j: X.at(i, j), tol)))
    x = v.arr('x', m)
    r = v.call(d, 'isinside', x, **kw)
    if v.shape('shape1', r, 1):
        v.ob('isinside(x) <=> constraints', Iff(r.at(0), in_sys(v, S_, lambda j: x.at(j), tol)))

@target('C01', DOM + 'linquad:LinQuadDomain.__init__', DOM + 'linquad:LinQuadDomain._isinside', E_ + 'isinside', E_ + '_isinside_bounds', E_ + '_isinside_ineq', E_ + '_isinside_eq', E_ + '_isinside_quad')
def linquad_isinside(v):
    """LinQuadDomain: membership is the conjunction of all its constraints"""
    m = v.int('m'); kw, S_ = linquad(v, m)
    d = v.new(DOM + 'linquad:LinQuadDomain', **kw)
    check_isinside(v, d, S_, m)

@target('C01', DOM + 'linquad:LinQuadDomain._isinside')
def linquad_isinside_tol(v):
    """user tolerance is honoured"""
    m = v.int('m'); kw, S_ = linquad(v, m)
    d = v.new(DOM + 'linquad:LinQuadDomain', **kw)
    t = v.real('tol', 0)
    check_isinside(v, d, S_, m, t, {'tol': t})

@target('C01', DOM + 'linineq:LinIneqDomain.__init__', DOM + 'linineq:LinIneqDomain._isinside')
def linineq_isinside(v):
    m = v.int('m'); kw, S_ = linquad(v, m, quad=False)
    d = v.new(DOM + 'linineq:LinIneqDomain', **kw)
    check_isinside(v, d, S_, m)

@target('C01', DOM + 'box:BoxDomain.__init__', DOM + 'box:BoxDomain._isinside')
def box_isinside(v):
    m = v.int('m'); lb, ub = bounds(v, m)
    d = v.new(DOM + 'box:BoxDomain', lb, ub)
    check_isinside(v, d, Sys(m, lb, ub), m)

@target('C01', E_ + 'isinside')
def wrong_dimension(v):
    """a point of another dimension is never inside"""
    m = v.int('m'); kw, S_ = linquad(v, m)
    d = v.new(DOM + 'linquad:LinQuadDomain', **kw)
    q = v.int('q'); v.assume(q != m); N = v.int('N')
    r = v.call(d, 'isinside', v.arr('X', N, q))
    if v.shape('shape', r, N): v.forall('all False', [N], lambda i: Not(r.at(i)))
    r = v.call(d, 'isinside', v.arr('x', q))
    v.ob('1-d False', r is False)
