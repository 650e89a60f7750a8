"""C07: samples, grids and sweeps."""
from .lib import *
E_ = DOM + 'euclidean:EuclideanDomain.'
LQ, BOX, PT = DOM + 'linquad:LinQuadDomain', DOM + 'box:BoxDomain', DOM + 'point:PointDomain'

@target('C07', E_ + 'sample')
def sample_shape(v):
    """sample(draw): empty for draw <= 0, flat for one, otherwise the drawn rows unchanged"""
    m = v.int('m'); d = v.bare(LQ, _dimension=Sym(m))
    n = v.int('draw', None)
    f = z3.Function('in_draws', I, I, RL)
    def contract(ip, loc):
        v.ob('asks for that many', A.ieq(loc['draw'], n)); k = idx(loc['draw'])
        return SArr((k, m), lambda i, j: Sym(f(idx(i), idx(j))))
    v.contract(E_ + '_sample', contract)
    X = v.call(d, 'sample', Sym(n))
    if X.ndim == 1:
        v.ob('flat only for one draw', n == 1); v.eq_arr('one draw', X, (m,), lambda j: Sym(f(0, idx(j))))
    else:
        v.ob('two-dimensional unless one draw', n != 1)
        v.ob('number of rows', And(Implies(n > 0, A.ieq(X.shape[0], n)), Implies(n <= 0, A.ieq(X.shape[0], 0))))
        v.ob('columns', A.ieq(X.shape[1], m))
        v.forall('rows are the draws', [X.shape[0], m], lambda i, j: s.same(X.at(i, j), Sym(f(idx(i), idx(j)))))

@target('C07', BOX + '._sample')
def box_sample(v):
    """every row of a box sample is within the bounds"""
    m, n = v.int('m'), v.int('draw')
    lb, ub = v.arr('lb', m), v.arr('ub', m)
    v.assume_all([m], lambda j: s.le(lb.at(j), ub.at(j)))
    d = v.bare(BOX, _dimension=Sym(m), _lb=lb, _ub=ub)
    X = v.call(d, '_sample', Sym(n))
    if v.shape('shape', X, n, m):
        v.forall('inside the box', [n, m], lambda i, j: And(s.le(lb.at(j), X.at(i, j)), s.le(X.at(i, j), ub.at(j))))
    v.forall('bounds unchanged', [m], lambda j: And(s.same(d.d['_lb'].at(j), lb.at(j)), s.same(d.d['_ub'].at(j), ub.at(j))))

@target('C07 C08 C06', PT + '._sample', PT + '._closest_point', PT + '._corner', PT + '._extent', PT + '._isinside')
def point(v):
    """a point domain: every query returns the point; membership is equality; only a zero direction can be followed"""
    m, n = v.int('m'), v.int('draw')
    x = v.arr('x', m); d = v.bare(PT, _x=x)
    X = v.call(d, '_sample', Sym(n)); v.eq_arr('sample', X, (n, m), lambda i, j: x.at(j))
    p = v.arr('p', m)
    v.eq_arr('closest', v.call(d, '_closest_point', p), (m,), lambda j: x.at(j)); v.eq_arr('corner', v.call(d, '_corner', p), (m,), lambda j: x.at(j))
    a = v.call(d, '_extent', x, p)
    z = v.all(m, lambda j: s.eq(p.at(j), 0))
    v.ob('extent', And(Implies(z, s.eq(a, INF)), Implies(Not(z), s.eq(a, 0))))
    N = v.int('N'); Y = v.arr('Y', N, m)
    r = v.call(d, '_isinside', Y)
    v.eq_arr('membership', r, (N,), lambda i: v.all(m, lambda j: s.eq(Y.at(i, j), x.at(j))))

@target('C07', E_ + 'sweep')
def sweep(v):
    """sweep: evenly spaced between the ends of the domain along the direction through the point; arguments unmodified"""
    m, n = v.int('m'), v.int('n', 2)
    lb, ub = bounds(v, m)
    d = v.bare(LQ, _dimension=Sym(m), _lb=lb, _ub=ub)
    x, p = v.arr('x', m), v.arr('p', m)
    q = v.int('q', 0); Q = v.arr('Q', m, q)
    v.contract(E_ + 'isinside', lambda ip, loc: True); v.contract(E_ + '_A_eq_basis', lambda ip, loc: Q)
    ext = []
    def extent(ip, loc):
        a = v.real('ext%d' % len(ext), 0); ext.append((loc['x'], SArr((m,), loc['p'].getter()), a)); return a
    v.contract(E_ + 'extent', extent)
    X, y = v.call(d, 'sweep', Sym(n), x, p)
    v.ob('two ends', len(ext) == 2)
    (x1, p1, a1), (x2, p2, a2) = ext
    pr = lambda j: s.ite(s.eq(lb.at(j), ub.at(j)), 0, s.sub(p.at(j), v.sum(q, lambda k: s.mul(Q.at(j, k), v.sum(m, lambda i: s.mul(Q.at(i, k), p.at(i)))))))
    v.eq_arr('first end in the projected direction', p1, (m,), pr)
    v.eq_arr('second end in the opposite direction', p2, (m,), lambda j: s.neg(p1.at(j)))
    v.forall('both from the given point', [m], lambda j: And(s.same(x1.at(j), x.at(j)), s.same(x2.at(j), x.at(j))))
    if v.shape('X:shape', X, n, m):
        t = lambda k: s.div(Sym(z3.ToReal(idx(k))), Sym(z3.ToReal(n - 1)))
        v.forall('X', [n, m], lambda k, j: s.same(X.at(k, j), s.add(s.mul(s.sub(1, t(k)), s.add(x.at(j), s.mul(a1, p1.at(j)))), s.mul(t(k), s.sub(x.at(j), s.mul(a2, p1.at(j)))))))
    v.shape('y', y, n)
    v.forall('point and direction unmodified', [m], lambda j: And(s.same(x.at(j), Sym(z3.Function('in_x', I, RL)(idx(j)))), s.same(p.at(j), Sym(z3.Function('in_p', I, RL)(idx(j))))))

def grid(v, m):
    n = v.int('n', 2)
    lb, ub = v.arr('lb', m), v.arr('ub', m)
    d = v.bare(LQ, _dimension=m, _lb=lb, _ub=ub)
    seen = []
    ins = z3.Function('in_inside', I, B)
    def ii(ip, loc): seen.append(loc['X']); return SArr((loc['X'].shape[0],), lambda i: ins(idx(i)), 'b')
    v.contract(E_ + 'isinside', ii)
    X = v.call(d, 'sample_grid', Sym(n))
    G = seen[0]
    N = n
    for _ in range(m - 1): N = N * n
    v.ob('every combination once: number of grid points', A.ieq(G.shape[0], N)); v.ob('columns', A.ieq(G.shape[1], m))
    pt = lambda j, k: s.add(lb.at(j), s.mul(s.sub(ub.at(j), lb.at(j)), s.div(Sym(z3.ToReal(k)), Sym(z3.ToReal(n - 1)))))
    ks = v.fresh([n] * m)
    row = ks[0]
    for k in ks[1:]: row = row * n + k
    for j in range(m): v.ob('grid point (k_1,..,k_m) has coordinates lb + k (ub - lb)/(n-1)', s.same(G.at(row, j), pt(j, ks[j])))
    v.ob('result columns', A.ieq(X.shape[1], m))
    cnt, sel, inv = v.ctx.select(G.shape[0], lambda i: ins(idx(i)))
    v.ob('as many rows as points inside', A.ieq(X.shape[0], cnt))
    i, = v.fresh([X.shape[0]])
    for j in range(m): v.ob('rows are the points inside', And(ins(idx(sel(i))), s.same(X.at(i, j), G.at(sel(i), j))))

@target('C07', E_ + 'sample_grid')
def grid2(v):
    """grid sample in two dimensions (any number of grid points): the full product grid filtered by membership"""
    grid(v, 2)
@target('C07', E_ + 'sample_grid')
def grid1(v):
    """grid sample in one dimension"""
    grid(v, 1)
