"""C20: geometry helpers."""
from .ext import *
from . import cvx
from .lipschitz import cdist as CD, root
G_ = 'psdr.geometry.'

def dist(v, m, L=None, p=None):
    """(weighted) Euclidean distance of two points given as functions"""
    if L is None: d = lambda x, y: root(v.sum(m, lambda k: s.mul(s.sub(x(k), y(k)), s.sub(x(k), y(k)))))
    else:
        q = lambda x, k: v.sum(m, lambda j: s.mul(L.at(k, j), x(j)))
        d = lambda x, y: root(v.sum(p, lambda k: s.mul(s.sub(q(x, k), q(y, k)), s.sub(q(x, k), q(y, k)))))
    return d
row = lambda X, i: (lambda k: X.at(i, k))

def base(v): ext(v, {'scipy.spatial.distance.cdist': CD(v)})

def do_cdist(v, weighted):
    base(v); m, p, N, M = v.int('m'), v.int('p'), v.int('N'), v.int('M'); X, Y = v.arr('X', N, m), v.arr('Y', M, m); L = v.arr('L', p, m) if weighted else None
    D = v.fcall(G_ + 'cdist:cdist', X, Y, L) if weighted else v.fcall(G_ + 'cdist:cdist', X, Y); d = dist(v, m, L, p)
    v.eq_arr('pairwise distances', D, (N, M), lambda i, j: d(row(X, i), row(Y, j)))
    x, y = v.arr('x', m), v.arr('y', m)
    D = v.fcall(G_ + 'cdist:cdist', x, y, L); v.eq_arr('single points', D, (1, 1), lambda i, j: d(lambda k: x.at(k), lambda k: y.at(k)))

@target('C20', G_ + 'cdist:cdist')
def cdist_plain(v):
    """pairwise Euclidean distances, points or rows"""
    do_cdist(v, False)
@target('C20', G_ + 'cdist:cdist')
def cdist_weighted(v):
    """distances in the metric of a rectangular matrix"""
    do_cdist(v, True)
@target('C20', G_ + 'cdist:cdist')
def cdist_norm(v):
    """the weighted distance is the norm of L (x - y)"""
    base(v); m, p = v.int('m'), v.int('p'); x, y, L = v.arr('x', m), v.arr('y', m), v.arr('L', p, m)
    D = v.fcall(G_ + 'cdist:cdist', x, y, L); w = lambda k: v.sum(m, lambda j: s.mul(L.at(k, j), s.sub(x.at(j), y.at(j))))
    v.have_all('L x - L y = L (x - y)', [p], lambda k: s.eq(s.sub(v.sum(m, lambda j: s.mul(L.at(k, j), x.at(j))), v.sum(m, lambda j: s.mul(L.at(k, j), y.at(j)))), w(k)))
    v.ob('norm of the difference', s.eq(D.at(0, 0), root(v.sum(p, lambda k: s.mul(w(k), w(k))))))

@target('C20', G_ + 'geometry:unique_points')
def unique(v):
    """a point is dropped exactly when a later point coincides with it (to 1e-8): one representative, the last, is kept; input unchanged"""
    v.ctx.parts = True; m, N = v.int('m'), v.int('N'); X = v.arr('X', N, m); D = v.arr('D', N, N)        # D: the pairwise distances (scipy pdist)
    v.assume_all([N, N], lambda i, j: s.le(0, D.at(i, j)))
    def pdist(P):
        v.eq_arr('distances between the given points', P, (N, m), lambda i, k: X.at(i, k)); return 'pd'
    ext(v, {'scipy.spatial.distance.pdist': pdist, 'scipy.spatial.distance.squareform': lambda q: SArr((N, N), lambda i, j: D.at(i, j))})
    I_ = v.fcall(G_ + 'geometry:unique_points', X)
    if not v.shape('one flag per point', I_, N): return
    kept = lambda i: I_.at(i) if isinstance(I_.at(i), (bool, z3.BoolRef)) else s.ne(I_.at(i), 0)
    i, = v.fresh([N]); n = z3.simplify(N - 1 - i); later = lambda q: D.at(i, z3.simplify(1 + i + idx(q))); tol = Fraction(1, 10 ** 8)
    a = v.ctx.argext('argmin', n, later)
    v.forall('a kept point is away from all later ones', [n], lambda q: And(Implies(kept(i), s.lt(tol, later(q))), s.le(later(a), later(q))))
    v.ob('a dropped point coincides with a later one', Or(kept(i), And(idx(a) >= 0, idx(a) < n, s.le(later(a), tol))))
    v.forall('the last point is kept', [N], lambda i: Implies(idx(i) == N - 1, I_.at(i)))

@target('C20', G_ + 'vertex:voronoi_vertex_1d')
def voronoi_1d(v):
    """one dimension: end points and midpoints of consecutive distinct samples; no sample is closer than the two neighbours"""
    n, q = v.int('n'), v.int('q'); X = v.arr('X', n, 1); U = v.arr('U', q); lo, hi = v.real('lo'), v.real('hi')
    src, pos = z3.Function('in_src', I, I), z3.Function('in_pos', I, I)
    def unique(x):
        x = A.asarr(x); g = x.getter(); v.ob('all samples', And(A.ieq(x.shape[0], n), x.ndim == 1)); v.forall('of the samples', [n], lambda i: s.eq(g(i), X.at(i, 0)))
        v.assume_all([q, q], lambda i, j: Implies(idx(i) < idx(j), s.lt(U.at(i), U.at(j))))
        v.assume_all([n], lambda i: And(pos(idx(i)) >= 0, pos(idx(i)) < q, s.eq(U.at(pos(idx(i))), X.at(i, 0))))
        v.assume_all([q], lambda i: And(src(idx(i)) >= 0, src(idx(i)) < n, s.eq(U.at(i), X.at(src(idx(i)), 0))))
        return U
    ext(v, {'numpy.unique': unique})
    dom = v.bare('psdr.domains.linquad:LinQuadDomain', _dimension=1)
    def corner(p):
        p = A.asarr(p); return SArr((1,), lambda i: s.ite(s.lt(p.at(0), 0), lo, hi))
    dom.d['corner'] = Builtin('corner', corner)
    V = v.fcall(G_ + 'vertex:voronoi_vertex_1d', dom, X)
    if not v.shape('vertices', V, q + 1, 1): return
    v.ob('first is the lower end', s.eq(V.at(0, 0), lo)); v.ob('last is the upper end', s.eq(V.at(q, 0), hi))
    mid = lambda k: V.at(Sym(idx(k) + 1).e, 0)
    v.forall('midpoints', [q - 1], lambda k: s.eq(s.mul(2, mid(k)), s.add(U.at(k), U.at(Sym(idx(k) + 1).e))))
    k, = v.fresh([q - 1]); i, = v.fresh([n])
    h = s.div(s.sub(U.at(Sym(k + 1).e), U.at(k)), 2)
    P = pos(i)
    v.have('order', Or(P <= k, P >= k + 1)); v.have('on the left', Implies(P <= k, s.le(U.at(P), U.at(k)))); v.have('on the right', Implies(P >= k + 1, s.le(U.at(Sym(k + 1).e), U.at(P))))
    v.ob('no sample is closer than the neighbours', s.le(h, s.abs_(s.sub(mid(k), X.at(i, 0)))))
    v.ob('equidistant to the neighbours', And(s.eq(s.abs_(s.sub(mid(k), U.at(k))), h), s.eq(s.abs_(s.sub(mid(k), U.at(Sym(k + 1).e))), h)))

def fill_common(v, m, N, K, X, V, r, d):
    v.forall('attained at a vertex: bound', [K], lambda i: v.ctx.any_(N, lambda j: s.le(d(row(V, i), row(X, j)), r)))
    v.ob('attained at a vertex', v.ctx.any_(K, lambda i: And(v.all(N, lambda j: s.le(r, d(row(V, i), row(X, j)))), v.ctx.any_(N, lambda j: s.eq(r, d(row(V, i), row(X, j)))))))

def do_fill(v, weighted, estimate):
    base(v); m, p, N, K = v.int('m'), v.int('p'), v.int('N'), v.int('K'); X = v.arr('X', N, m); V = v.arr('V', K, m); L = v.arr('L', p, m) if weighted else None; d = dist(v, m, L, p); st = {}
    dom = v.bare('psdr.domains.linquad:LinQuadDomain', _dimension=v.num(m))
    def vv(ip, loc):
        st['n'] = st.get('n', 0) + 1
        v.forall('vertices of the given samples', [N, m], lambda i, k: s.eq(loc['Xhat'].at(i, k), X.at(i, k)))
        if weighted: v.forall('in the given metric', [p, m], lambda i, k: s.eq(loc['L'].at(i, k), L.at(i, k)))
        return V
    v.contract(G_ + 'vertex:voronoi_vertex', vv); v.contract(G_ + 'vertex:voronoi_vertex_sample', vv)
    X0 = v.arr('X0', K, m); v.contract('psdr.sample.initial:initial_sample', lambda ip, loc: X0)
    r = v.fcall(G_ + 'fill:' + ('fill_distance_estimate' if estimate else 'fill_distance'), dom, X, L)
    if estimate and not weighted: d = dist(v, m)
    v.ob('vertices computed once', st.get('n') == 1); fill_common(v, m, N, K, X, V, r, d)

@target('C20', G_ + 'fill:fill_distance')
def fill(v):
    """the fill distance is the distance of a Voronoi vertex to its closest sample, and no vertex is further from all samples"""
    do_fill(v, False, False)
@target('C20', G_ + 'fill:fill_distance')
def fill_weighted(v):
    """the same in the metric of a matrix"""
    do_fill(v, True, False)
@target('C20', G_ + 'fill:fill_distance_estimate')
def fill_estimate(v):
    """the estimate is attained at a candidate point"""
    do_fill(v, True, True)
@target('C20', G_ + 'fill:fill_distance_estimate')
def fill_estimate_plain(v):
    """the Euclidean metric by default"""
    do_fill(v, False, True)

@target('C20', G_ + 'miniball:miniball')
def miniball(v):
    """the problem solved is: minimize over x the largest ||L (x - x_i)||; the center is its solution, the radius its value"""
    for weighted in (False, True):
        cp = cvx.CP(v, ('optimal',)); m, M = v.int('m'), v.int('M'); X = v.arr('X', M, m); p = v.int('p') if weighted else m; L = v.arr('L', p, m) if weighted else None
        got = []
        def mixed(e, p=2, q=1):
            v.ob('largest of the row norms', p == 2 and s.S(q).pi is True); got.append(A.asarr(e))
            return Ns('mixed_norm', {'value': Sym(z3.Real('radius'))})
        def reshape(e, sh, order='F'): return A.reshape(A.asarr(e), sh)
        d = v.ip.shims['cvxpy'].d; d['mixed_norm'] = Builtin('cp.mixed_norm', mixed); d['reshape'] = Builtin('cp.reshape', reshape)
        r = v.fcall(G_ + 'miniball:miniball', X, L) if weighted else v.fcall(G_ + 'miniball:miniball', X)
        v.ob('one problem, solved', len(cp.problems) == 1 and len(got) == 1 and len(cp.vars) == 1)
        (sn, e), cons, P = cp.problems[0]; z = cp.vars[0]
        v.ob('minimized, without constraints', sn == 'min' and e.d['value'] is not None and len(list(cons)) == 0)
        row_ = (lambda i, k: v.sum(m, lambda j: s.mul(L.at(k, j), s.sub(z.at(j), X.at(i, j))))) if weighted else (lambda i, k: s.sub(z.at(k), X.at(i, k)))
        if v.shape('one row per point', got[0], M, p): v.eq_arr('rows are the (weighted) differences', got[0], (M, p), row_)
        sol = z.cp[2](); v.eq_arr('center is the solution', r[0], (m,), lambda j: sol.at(j)); v.ob('radius is the optimal value', s.same(r[1], Sym(z3.Real('radius'))))

@target('C20', G_ + 'vertex:voronoi_vertex')
def voronoi_cells(v):
    """bounded Voronoi vertices of two samples in any dimension: every returned point satisfies the domain constraints and its own sample is a nearest one"""
    m, nA, N = v.int('m', 2), v.int('nA', 0), 2; X = v.arr('X', N, m); Am, b = v.arr('A', nA, m), v.arr('b', nA)
    ins = z3.Function('inside', I, z3.BoolSort()); cells = []
    def hsi(H, x0):
        k = len(cells); n = v.int('nv%d' % k); P = v.arr('cell%d' % k, n, m); v.shape('half-space columns', H, H.shape[0], idx(m) + 1)
        # contract (Qhull): every vertex satisfies every half space A x + b <= 0
        fact = lambda i, r: Implies(And(0 <= idx(i), idx(i) < idx(n), 0 <= idx(r), idx(r) < idx(H.shape[0])), s.le(s.add(v.sum(m, lambda j: s.mul(H.at(r, j), P.at(i, j))), H.at(r, m)), 0))
        cells.append((P, n, fact, H)); return Ns('hs', {'intersections': P})
    ext(v, {'scipy.spatial.HalfspaceIntersection': hsi})
    keep = z3.Function('keep', I, z3.BoolSort()); pts = []
    def uniq(ip, loc): pts.append(loc['X'] if 'X' in loc else list(loc.values())[0]); return SArr((A.asarr(pts[-1]).shape[0],), lambda i: keep(idx(i)), 'b')
    v.contract(G_ + 'geometry:unique_points', uniq)
    def isin(Y):
        Y = A.asarr(Y)
        if len(pts) == 0: return SArr((Y.shape[0],), lambda i: z3.BoolVal(True), 'b')
        return SArr((Y.shape[0],), lambda i: ins(idx(i)), 'b')
    dom = Ns('domain', {'isinside': Builtin('isinside', isin), 'A_aug': Am, 'b_aug': b, '__len__': (lambda: v.num(m))})
    V = v.fcall(G_ + 'vertex:voronoi_vertex', dom, X)
    v.ob('one cell per sample', len(cells) == N and len(pts) == 1)
    Q = A.asarr(pts[0]); n0, n1 = cells[0][1], cells[1][1]; Q_ = lambda i: (lambda k: Q.at(i, k))
    if not v.shape('all cell vertices', Q, idx(n0) + idx(n1), m): return
    for k, lo, n in ((0, 0, n0), (1, n0, n1)):
        P, _, fact, H = cells[k]; j = 1 - k
        v.forall('rows are the vertices of cell %d' % k, [n, m], lambda i, c: s.eq(Q.at(z3.simplify(idx(lo) + idx(i)), c), P.at(i, c)))
        v.forall('inside the domain constraints', [n, nA], lambda i, r: Implies(fact(i, r), s.le(v.sum(m, lambda c: s.mul(Am.at(r, c), P.at(i, c))), b.at(r))))
        sq = lambda i, q: v.sum(m, lambda c: (lambda d: s.mul(d, d))(s.sub(P.at(i, c), X.at(q, c))))
        cnt_, _, inv = v.ctx.select(N, lambda q: s.lt(0, v.sum(m, lambda c: (lambda d: s.mul(d, d))(s.sub(X.at(q, c), X.at(k, c))))))
        v.ctx.zerosum = True
        dk = lambda c: s.sub(X.at(j, c), X.at(k, c))
        i, = v.fresh([n]); r = z3.simplify(idx(nA) + idx(inv(j))); gap = v.sum(m, lambda c: s.mul(dk(c), dk(c)))
        with v.scope():
            v.assume(s.lt(0, gap)); v.have('the other sample contributes a half space', And(0 <= idx(inv(j)), idx(inv(j)) < idx(cnt_)))
            v.have_all('coefficients', [m], lambda c: s.eq(H.at(r, c), dk(c)))
            v.have('coefficients applied to the vertex', s.eq(v.sum(m, lambda c: s.mul(H.at(r, c), P.at(i, c))), v.sum(m, lambda c: s.mul(dk(c), P.at(i, c)))))
            v.have('right-hand side', s.eq(s.mul(-2, H.at(r, m)), v.sum(m, lambda c: s.mul(dk(c), s.add(X.at(j, c), X.at(k, c))))))
            v.have('its half space', Implies(fact(i, r), s.le(s.mul(2, v.sum(m, lambda c: s.mul(dk(c), P.at(i, c)))), v.sum(m, lambda c: s.mul(dk(c), s.add(X.at(j, c), X.at(k, c)))))))
            v.ob('no other sample is closer than its own', Implies(fact(i, r), s.le(sq(i, k), sq(i, j))))
    cnt, sel, _ = v.ctx.select(idx(n0) + idx(n1), lambda i: keep(idx(i)))
    c2, s2, _ = v.ctx.select(cnt, lambda i: ins(idx(i)))
    v.eq_arr('returned: the distinct vertices inside the domain', V, (c2, m), lambda i, c: Q.at(sel(s2(i)), c))
