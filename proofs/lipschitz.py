"""C14, C15: Lipschitz matrices and the uncertainty they imply."""
from .ext import *
from pv.interp import Builtin
from pv import loops
LM, LC, LD = 'psdr.lipschitz:LipschitzMatrix', 'psdr.lipschitz:LipschitzConstant', 'psdr.lipschitz:DiagonalLipschitzMatrix'

def root(a): return Sym(s.sqrt_term(s.R(S(a).e)))      # square root of a sum of squares

def cdist(v):
    def fn(P, Q, metric='euclidean'):
        P, Q = A.asarr(P), A.asarr(Q); p, q = P.getter(), Q.getter()
        v.ob('distances between points of the same dimension', A.ieq(P.shape[1], Q.shape[1]))
        return SArr((P.shape[0], Q.shape[0]), lambda i, j: root(v.sum(P.shape[1], lambda k: s.mul(s.sub(p(i, k), q(j, k)), s.sub(p(i, k), q(j, k))))))
    return fn

def setup(v, eps=None, cls=LM):
    ext(v, {'scipy.spatial.distance.cdist': cdist(v)})
    m, N, M = v.int('m'), v.int('N'), v.int('M')
    L, X, f, Xt = v.arr('L', m, m), v.arr('X', N, m), v.arr('f', N), v.arr('Xt', M, m)
    o = v.bare(cls, _L=L, epsilon=eps)
    lin = lambda P, i, k: v.sum(m, lambda q: s.mul(L.at(k, q), P.at(i, q)))
    d = lambda i, j: root(v.sum(m, lambda k: s.mul(s.sub(lin(Xt, i, k), lin(X, j, k)), s.sub(lin(Xt, i, k), lin(X, j, k)))))
    return o, m, N, M, L, X, f, Xt, d

def do_unc(v, eps):
    e = v.real('eps', 0) if eps else None
    o, m, N, M, L, X, f, Xt, d = setup(v, e); e = e if eps else 0
    lb, ub = v.call(o, 'uncertainty', X, f, Xt)
    if not (v.shape('lower', lb, M) and v.shape('upper', ub, M)): return
    v.forall('no lower cone is above the lower bound', [M, N], lambda i, j: s.le(s.sub(f.at(j), d(i, j)), s.add(lb.at(i), e)))
    v.forall('no upper cone is below the upper bound', [M, N], lambda i, j: s.le(s.sub(ub.at(i), e), s.add(f.at(j), d(i, j))))
    v.forall('the lower bound is one of the cones', [M], lambda i: v.ctx.any_(N, lambda j: s.eq(s.add(lb.at(i), e), s.sub(f.at(j), d(i, j)))))
    v.forall('the upper bound is one of the cones', [M], lambda i: v.ctx.any_(N, lambda j: s.eq(s.sub(ub.at(i), e), s.add(f.at(j), d(i, j)))))
    F = v.arr('F', M); v.assume_all([M, N], lambda i, j: And(s.le(s.sub(F.at(i), f.at(j)), s.add(d(i, j), e)), s.le(s.sub(f.at(j), F.at(i)), s.add(d(i, j), e))))
    v.forall('consistent functions are enclosed', [M], lambda i: And(s.le(lb.at(i), F.at(i)), s.le(F.at(i), ub.at(i))))

@target('C15', LM + '.uncertainty')
def uncertainty(v):
    """lower and upper bounds are the largest lower and smallest upper cone; consistent functions are enclosed"""
    do_unc(v, False)
@target('C15', LM + '.uncertainty')
def uncertainty_eps(v):
    """with epsilon the bounds are widened by it on both sides"""
    do_unc(v, True)

@target('C15', LM + '.uncertainty')
def uncertainty_data(v):
    """at the samples the bounds of consistent data meet the data up to epsilon"""
    e = v.real('eps', 0)
    o, m, N, M, L, X, f, Xt, d = setup(v, e)
    lin = lambda P, i, k: v.sum(m, lambda q: s.mul(L.at(k, q), P.at(i, q)))
    dd = lambda i, j: root(v.sum(m, lambda k: s.mul(s.sub(lin(X, i, k), lin(X, j, k)), s.sub(lin(X, i, k), lin(X, j, k)))))
    v.assume_all([N, N], lambda i, j: And(s.le(s.sub(f.at(i), f.at(j)), s.add(dd(i, j), e)), s.le(s.sub(f.at(j), f.at(i)), s.add(dd(i, j), e))))
    lb, ub = v.call(o, 'uncertainty', X, f, X)
    if not (v.shape('lower', lb, N) and v.shape('upper', ub, N)): return
    v.forall('the lower bound is within epsilon below the sample', [N], lambda i: And(s.le(s.sub(f.at(i), e), lb.at(i)), s.le(lb.at(i), f.at(i))))
    v.forall('the upper bound is within epsilon above the sample', [N], lambda i: And(s.le(f.at(i), ub.at(i)), s.le(ub.at(i), s.add(f.at(i), e))))

@target('C15', LM + '.uncertainty')
def uncertainty_order(v):
    """the lower bound never exceeds the upper one for consistent data (triangle inequality of the Euclidean norm assumed)"""
    e = v.real('eps', 0)
    o, m, N, M, L, X, f, Xt, d = setup(v, e)
    lin = lambda P, i, k: v.sum(m, lambda q: s.mul(L.at(k, q), P.at(i, q)))
    dd = lambda i, j: root(v.sum(m, lambda k: s.mul(s.sub(lin(X, i, k), lin(X, j, k)), s.sub(lin(X, i, k), lin(X, j, k)))))
    v.assume_all([N, N], lambda i, j: s.le(s.sub(f.at(i), f.at(j)), s.add(dd(i, j), e)))
    v.assume_all([M, N, N], lambda a, i, j: s.le(dd(i, j), s.add(d(a, i), d(a, j))))
    lb, ub = v.call(o, 'uncertainty', X, f, Xt)
    v.forall('lower bound at most the upper bound', [M], lambda i: s.le(lb.at(i), ub.at(i)))

@target('C15', 'psdr.lipschitz:LowerBound.eval', 'psdr.lipschitz:UpperBound.eval')
def cones(v):
    """the bound functions are the cones of the samples (upper ones negated)"""
    o, m, N, M, L, X, f, Xt, d = setup(v)
    for c, g in (('LowerBound', s.sub), ('UpperBound', lambda a, b: s.neg(s.add(a, b)))):
        o = v.new('psdr.lipschitz:' + c, L, X, f); x = SArr((m,), lambda k: Xt.at(0, k))
        v.eq_arr(c, v.call(o, 'eval', x), (N,), lambda j: g(f.at(j), d(0, j)))

@target('C15', 'psdr.lipschitz:LowerBound.grad', 'psdr.lipschitz:UpperBound.grad')
def cone_gradients(v):
    """row j is -L'L(x - X_j) / distance away from the tip, zero at it"""
    o, m, N, M, L, X, f, Xt, d = setup(v)
    for c in ('LowerBound', 'UpperBound'):
        o = v.new('psdr.lipschitz:' + c, L, X, f); x = SArr((m,), lambda k: Xt.at(0, k))
        G = v.call(o, 'grad', x)
        w = lambda j, q: s.sub(v.sum(m, lambda l: s.mul(L.at(q, l), x.at(l))), v.sum(m, lambda l: s.mul(L.at(q, l), X.at(j, l))))
        v.eq_arr(c, G, (N, m), lambda j, k: s.ite(s.lt(0, d(0, j)), v.sum(m, lambda q: s.mul(L.at(q, k), s.div(s.neg(w(j, q)), d(0, j)))), 0))

# ---- C14 ---------------------------------------------------------------------------------------------------------------------
def norm(v, m, w): return root(v.sum(m, lambda k: s.mul(w(k), w(k))))
def pdiff(X, i, j): return lambda k: s.sub(X.at(i, k), X.at(j, k))

def do_const(v, samples, grads, eps=True):
    s.DEFINED[0] = True
    m = v.int('m'); N = v.int('N', 1) if samples else 0; K = v.int('K', 1) if grads else 0
    X, f, G = v.arr('X', N, m), v.arr('f', N), v.arr('G', K, m)
    o = v.bare(LC, _dimension=v.num(m), epsilon=v.real('e'))
    epsilon, scale = v.real('eps', 0), v.real('scale'); v.assume(s.lt(0, scale))
    v.call(o, '_fit', X, f, G, epsilon, scale); L = o.d['_L']; tol = s.mul(epsilon, scale)
    dist = lambda i, j: norm(v, m, pdiff(X, i, j)); gap = lambda i, j: s.sub(s.abs_(s.sub(f.at(i), f.at(j))), tol)
    v.ob('nonnegative', s.le(0, L))
    if samples:
        pos = lambda i, j: s.lt(0, dist(i, j))
        for cnt in getattr(v.ctx, 'pairs', []):       # the pairs in the order of the code
            fi, fj = [z3.Function('pair0_' + w, z3.IntSort(), z3.IntSort(), z3.IntSort()) for w in 'ij']; g = lambda f, p: f(idx(p), idx(N))
            v.have_all('every listed pair', [cnt], lambda p: s.Implies(And(s.lt(0, gap(g(fi, p), g(fj, p))), s.lt(0, dist(g(fi, p), g(fj, p)))), s.le(gap(g(fi, p), g(fj, p)), s.mul(L, dist(g(fi, p), g(fj, p))))))
            listed = v.ctx.foralls[-1]; inv = lambda i, j: z3.Function('pair0_inv', *[z3.IntSort()] * 4)(idx(i), idx(j), idx(N))
            v.have_all('every pair is listed', [N, N], lambda i, j: s.Implies(idx(i) < idx(j), And(inv(i, j) >= 0, inv(i, j) < cnt, g(fi, inv(i, j)) == idx(i), g(fj, inv(i, j)) == idx(j)))); every = v.ctx.foralls[-1]
            with v.scope():
                v.ctx.foralls = [listed, every]; i, j = v.fresh([N, N]); p = inv(i, j); v.assume(idx(i) < idx(j)); v.assume(s.lt(0, dist(i, j)))
                v.have('listed', And(p >= 0, p < cnt)); v.have('pair', And(g(fi, p) == idx(i), g(fj, p) == idx(j)))
                v.have('distance', s.eq(dist(g(fi, p), g(fj, p)), dist(i, j))); v.have('gap', s.eq(gap(g(fi, p), g(fj, p)), gap(i, j)))
                v.have('listed bound', s.Implies(s.lt(0, gap(i, j)), s.le(gap(g(fi, p), g(fj, p)), s.mul(L, dist(g(fi, p), g(fj, p))))))
                v.have('active pair', s.Implies(s.lt(0, gap(i, j)), s.le(gap(i, j), s.mul(L, dist(i, j))))); v.have('product', s.le(0, s.mul(L, dist(i, j))))
                v.ob('the samples satisfy the bound', s.le(gap(i, j), s.mul(L, dist(i, j))))
        if not getattr(v.ctx, 'pairs', []): v.forall('the samples satisfy the bound', [N, N], lambda i, j: s.Implies(And(pos(i, j), idx(i) < idx(j)), s.le(gap(i, j), s.mul(L, dist(i, j)))))
    if grads: v.forall('the gradients satisfy the bound', [K], lambda k: s.le(norm(v, m, lambda q: G.at(k, q)), L))
    Lp = v.real('Lp', 0)           # any other constant that satisfies the data
    if samples: v.assume_all([N, N], lambda i, j: s.Implies(idx(i) < idx(j), And(s.lt(0, dist(i, j)), s.le(gap(i, j), s.mul(Lp, dist(i, j))))))
    if grads: v.assume_all([K], lambda k: s.le(norm(v, m, lambda q: G.at(k, q)), Lp))
    v.ob('smallest', s.le(L, Lp))

@target('C14', LC + '._fit')
def constant_samples(v):
    """the constant is the smallest one such that all pairs of samples differ by at most L ||x - y|| + epsilon"""
    do_const(v, True, False)
@target('C14', LC + '._fit')
def constant_grads(v):
    """the constant is the largest norm of a gradient"""
    do_const(v, False, True)
@target('C14', LC + '._fit')
def constant_both(v):
    """samples and gradients"""
    do_const(v, True, True)

def do_fit(v, cls, samples, grads, eps):
    m = v.int('m'); N = v.int('N', 1) if samples else 0; K = v.int('K', 1) if grads else 0; e = v.real('e', 0) if eps else None
    X, f, G = v.arr('X', N, m), v.arr('f', N), v.arr('G', K, m); got = []
    o = v.bare(cls, epsilon=e)
    def dim(ip, loc): o.d['_dimension'] = v.num(m)
    def fit(ip, loc): got.append([loc[k] for k in ('X', 'fX', 'grads', 'epsilon', 'scale')])
    v.contract('psdr.subspace:SubspaceBasedDimensionReduction._init_dim', dim)
    v.contract(cls + '._fit', fit)
    v.call(o, 'fit', **dict(dict(X=X, fX=f) if samples else {}, **(dict(grads=G) if grads else {})))
    v.ob('fitted once', len(got) == 1); P, F, Q, ep, sc = got[0]
    v.eq_arr('samples', P, (N, m), X.at); v.eq_arr('values', F, (N,), f.at); v.eq_arr('gradients', Q, (K, m), G.at)
    v.ob('positive scale', s.lt(0, sc)); s.DEFINED[0] = True
    v.ob('epsilon relative to the scale', s.eq(s.mul(ep, sc), e if eps else 0))

for nm, sa, gr, ep, doc in (('fit_samples', True, False, True, 'samples: data as given, a positive scale and epsilon divided by it'), ('fit_grads', False, True, False, 'gradients only'), ('fit_both', True, True, False, 'samples and gradients')):
    def mk(sa, gr, ep):
        def t(v): do_fit(v, LM, sa, gr, ep)
        return t
    f_ = mk(sa, gr, ep); f_.__name__ = nm; f_.__doc__ = 'fit passes on the ' + doc; globals()[nm] = target('C14', LM + '.fit')(f_)

def lm_fit(v, cls=LM):
    """run _fit with the contract of the builder (a symmetric matrix Hb) and of eigh (Hb = E diag(w) E^T, E orthogonal)"""
    m, N, K = v.int('m'), v.int('N'), v.int('K'); X, f, G = v.arr('X', N, m), v.arr('f', N), v.arr('G', K, m); ep, sc = v.real('eps', 0), v.real('scale'); v.assume(s.lt(0, sc))
    Hb, w, E, sg = v.arr('Hb', m, m), v.arr('w', m), v.arr('E', m, m), v.arr('sign', m); rec = []
    def build(*a, **k): rec.append((a, k)); return Hb
    def eigh(H, **k): v.ob('decomposition of the matrix of the semidefinite program', H is Hb); return w, E
    ext(v, {'scipy.linalg.eigh': eigh}); o = v.bare(cls, _dimension=v.num(m), epsilon=v.real('e'), _build_lipschitz_matrix=Builtin('build', build))
    def signs(ip, loc): U = A.asarr(loc['U']); g = U.getter(); return SArr((m, m), lambda i, q: s.mul(sg.at(q), g(i, q)))
    v.contract('psdr.subspace:SubspaceBasedDimensionReduction._fix_subspace_signs', signs)
    v.assume_all([m], lambda q: s.eq(s.mul(sg.at(q), sg.at(q)), 1)); one = v.ctx.foralls[-1]
    v.call(o, '_fit', X, f, G, ep, sc)
    v.ob('one semidefinite program', len(rec) == 1); a, k = rec[0]
    v.eq_arr('samples', a[0], (N, m), X.at); s.DEFINED[0] = True
    v.eq_arr('scaled values', a[1], (N,), lambda i: s.div(f.at(i), sc)); v.eq_arr('scaled gradients', a[2], (K, m), lambda i, j: s.div(G.at(i, j), sc)); v.ob('epsilon', s.same(a[3], ep))
    return o, m, sc, Hb, w, E, sg, one

@target('C14', LM + '._fit')
def matrix_H(v):
    """the squared matrix is scale^2 times the projection of the solution of the semidefinite program (of the scaled data) onto the positive semidefinite cone"""
    o, m, sc, Hb, w, E, sg, one = lm_fit(v); H = o.d['_H']; v.shape('squared matrix', H, m, m)
    rv = lambda q: z3.simplify(idx(m) - 1 - idx(q))
    i, j = v.fresh([m, m])
    t = lambda q: s.mul(s.mul(E.at(i, rv(q)), E.at(j, rv(q))), s.maximum(0, w.at(rv(q))))
    v.have_all('terms', [m], lambda q: s.eq(s.mul(s.mul(sg.at(q), sg.at(q)), t(q)), t(q))); v.ctx.foralls = v.ctx.foralls[-1:]
    v.ob('squared matrix', s.eq(H.at(i, j), s.mul(s.mul(sc, sc), v.sum(m, t))))

@target('C14', LM + '._fit')
def matrix_L(v):
    """the factor is symmetric and L L^T = L^T L is the squared matrix"""
    o, m, sc, Hb, w, E, sg, one = lm_fit(v); H, L0 = o.d['_H'], o.d['_L']
    if not (v.shape('squared matrix', H, m, m) and v.shape('factor', L0, m, m)): return
    rv = lambda q: z3.simplify(idx(m) - 1 - idx(q)); B = mark(v); v.ctx.foralls = []; F = v.ctx.foralls
    U, dU = define(v, 'U', (m, m), lambda i, q: s.mul(sg.at(q), E.at(i, rv(q)))); r = fresh_arr(v, 'r', m)
    v.assume_all([m], lambda q: s.eq(r.at(q), root(s.maximum(0, w.at(rv(q)))))); dr = v.ctx.foralls[-1]
    v.assume_all([m, m], lambda p, q: s.eq(v.sum(m, lambda k: s.mul(U.at(k, p), U.at(k, q))), s.ite(idx(p) == idx(q), 1, 0))); orth = v.ctx.foralls[-1]
    L, dL = define(v, 'L', (m, m), lambda i, k: s.mul(sc, v.sum(m, lambda q: s.mul(s.mul(U.at(i, q), r.at(q)), U.at(k, q)))))
    lt = lemma(v, 'factor terms', [m, m, m], lambda i, k, q: s.eq(s.mul(s.mul(s.mul(sg.at(q), E.at(i, rv(q))), root(s.maximum(0, w.at(rv(q))))), s.mul(sg.at(q), E.at(k, rv(q)))), s.mul(s.mul(U.at(i, q), r.at(q)), U.at(k, q))), [dU, dr], B)
    lemma(v, 'factor', [m, m], lambda i, k: s.eq(L0.at(i, k), L.at(i, k)), [dL, lt], B)
    lemma(v, 'symmetric', [m, m], lambda i, k: s.eq(L.at(i, k), L.at(k, i)), [dL], B)
    i, j = v.fresh([m, m]); B = mark(v)
    rule = lambda name, terms, using: linrule(v, B, m, name, terms, using)
    with v.scope():
        q, = v.fresh([m]); B = mark(v)
        f1 = [rule('columns: expand', [(1, lambda k: s.mul(U.at(k, q), L.at(j, k))), (s.neg(sc), lambda k: v.sum(m, lambda p: s.mul(s.mul(U.at(j, p), r.at(p)), s.mul(U.at(k, p), U.at(k, q)))))], [dL])]
        T = lambda k, p: s.mul(s.mul(U.at(j, p), r.at(p)), s.mul(U.at(k, p), U.at(k, q))); f1.append(v.swap(m, m, T))
        p1 = lemma(v, 'columns: orthogonal', [m], lambda p: s.eq(v.sum(m, lambda k: T(k, p)), s.ite(idx(p) == idx(q), s.mul(U.at(j, q), r.at(q)), 0)), [orth], B)
        v.ctx.singles = [q]; lemma(v, 'columns: sum', [], lambda: s.eq(v.sum(m, lambda p: v.sum(m, lambda k: T(k, p))), s.mul(U.at(j, q), r.at(q))), [p1], B); v.ctx.singles = ()
        for k in f1: v.assume(k())
        W = lambda q: s.eq(v.sum(m, lambda k: s.mul(U.at(k, q), L.at(j, k))), s.mul(sc, s.mul(U.at(j, q), r.at(q))))
        lemma(v, 'columns', [], lambda: W(q), [])
    v.assume_all([m], W); dW = v.ctx.foralls[-1]
    Z = lambda k, q: s.mul(s.mul(U.at(i, q), r.at(q)), s.mul(U.at(k, q), L.at(j, k)))
    f2 = [rule('product: expand', [(1, lambda k: s.mul(L.at(i, k), L.at(j, k))), (s.neg(sc), lambda k: v.sum(m, lambda q: Z(k, q)))], [dL]), v.swap(m, m, Z),
        rule('product: columns', [(1, lambda q: v.sum(m, lambda k: Z(k, q))), (s.neg(sc), lambda q: s.mul(s.mul(U.at(i, q), U.at(j, q)), s.mul(r.at(q), r.at(q))))], [dW])]
    sq = lambda q: s.mul(s.mul(s.mul(sg.at(q), E.at(i, rv(q))), s.mul(sg.at(q), E.at(j, rv(q)))), s.maximum(0, w.at(rv(q))))
    f2.append(rule('square roots', [(1, lambda q: s.mul(s.mul(U.at(i, q), U.at(j, q)), s.mul(r.at(q), r.at(q)))), (-1, sq)], [dU, dr]))
    for k in f2: v.assume(k())
    lemma(v, 'product', [], lambda: s.eq(v.sum(m, lambda k: s.mul(L.at(i, k), L.at(j, k))), s.mul(s.mul(sc, sc), v.sum(m, sq))), [])
    lemma(v, 'squared matrix', [], lambda: s.eq(H.at(i, j), s.mul(s.mul(sc, sc), v.sum(m, sq))), [], B)

@target('C14', LD + '._fit')
def diagonal(v):
    """diagonal: nonnegative diagonal of the solution of the diagonal program times scale^2; the factor is its square root; no stale directions"""
    m, N, K = v.int('m'), v.int('N'), v.int('K'); X, f, G = v.arr('X', N, m), v.arr('f', N), v.arr('G', K, m); ep, sc = v.real('eps', 0), v.real('scale'); v.assume(s.lt(0, sc))
    Hb = v.arr('Hb', m, m); rec = []
    def build(*a, **k): rec.append((a, k)); return Hb
    o = v.bare(LD, _dimension=v.num(m), epsilon=v.real('e'), _build_lipschitz_matrix=Builtin('build', build), _U=v.arr('Uold', m, m))
    v.call(o, '_fit', X, f, G, ep, sc); a, k = rec[0]; s.DEFINED[0] = True
    v.ob('diagonal program', len(rec) == 1 and k.get('structure') == 'diag')
    v.eq_arr('samples', a[0], (N, m), X.at); v.eq_arr('scaled values', a[1], (N,), lambda i: s.div(f.at(i), sc)); v.eq_arr('scaled gradients', a[2], (K, m), lambda i, j: s.div(G.at(i, j), sc)); v.ob('epsilon', s.same(a[3], ep))
    d = lambda i: s.maximum(0, Hb.at(i, i))
    v.eq_arr('squared matrix', o.d['_H'], (m, m), lambda i, j: s.ite(idx(i) == idx(j), s.mul(s.mul(sc, sc), d(i)), 0))
    v.eq_arr('factor', o.d['_L'], (m, m), lambda i, j: s.ite(idx(i) == idx(j), s.mul(sc, root(d(i))), 0))
    v.eq_arr('score', o.d['_score'], (m,), lambda i: s.mul(sc, root(d(i)))); v.ob('directions recomputed', o.d['_U'] is None)

# the semidefinite program itself: m inputs, any number of samples and gradients
def quadform(H, m, y): return sum_(s.mul(s.mul(y(a), y(b)), H(a, b)) for a in range(m) for b in range(m))
def sum_(it):
    r = 0
    for x in it: r = s.add(r, x)
    return r

class Bag(object):
    """a list under construction of which only the entries appended since the last loop boundary are known"""
    def __init__(self): self.items = []
def bag():
    b = Bag(); n = Ns('bag', {'append': Builtin('append', lambda x: b.items.append(x))}); n.bag = b; return n

def pair_loops(v, qual, N, check_pair, check_item, lists=None):
    """loop rule for constraint lists filled by a double loop over all pairs (i < j) and by loops over single items: an arbitrary iteration appends what check_* accepts.
    Loops over sequences of known length are executed.  Returns the state; state['loose'] are the entries appended outside the loops."""
    import ast
    from pv.interp import _Break, _Continue
    st_ = {'names': None, 'loose': [], 'outer': None, 'inner': None, 'seen': []}
    def names(fr): return [nm for nm, val in fr.l.items() if (isinstance(val, list) and not val) or hasattr(val, 'bag')]
    def flush(fr):
        if st_['names'] is None: st_['names'] = names(fr)
        its = []
        for nm in st_['names']:
            val = fr.l[nm]
            if hasattr(val, 'bag'): its.append(val.bag.items); val.bag.items = []
            elif isinstance(val, list) and not val: its.append([])
            else: raise Unsupported('list of constraints')
        if len(set(map(len, its))) > 1: raise Unsupported('lists of different lengths')
        return list(zip(*its))
    def havoc(fr, k):
        for nm in st_['names']: fr.l[nm] = bag()
    def inv_outer(fr, tag, k=None):
        if k is None: st_['loose'] += flush(fr)
        else:
            if flush(fr): raise Unsupported('constraints between the loops')
    def inv_inner(fr, tag, k=None):
        if k is None:
            if flush(fr): raise Unsupported('constraints between the loops')
        else: check_pair(idx(fr.l[st_['ti']]), idx(fr.l[st_['tj']]), flush(fr))
    def inv_item(fr, tag, k=None):
        if k is None: st_['loose'] += flush(fr)
        else: check_item(idx(k), flush(fr))
    def handlers():
        hs = []
        for inv in (inv_outer, inv_inner, inv_item):
            v.loop(qual, 1, havoc, inv, kind='for'); hs.append(v.ip.loop_contracts[(qual, 'for', 1)])
        return hs
    h1, h2, h3 = handlers()
    def covers(seq, lo, n, what):
        v.forall(what, [seq.n], lambda t: seq.get(t).e == idx(lo) + idx(t)); v.ob(what + ' (length)', Or(idx(seq.n) == idx(n), And(idx(seq.n) <= 0, idx(n) <= 0)))
    def disp(ip, st, fr, seq):
        if isinstance(seq, list):
            for x in seq:
                ip.assign(st.target, x, fr)
                try: ip.block(st.body, fr)
                except _Continue: continue
                except _Break: return
            return
        nested = any(isinstance(u, ast.For) for b in st.body for u in ast.walk(b))
        if st_['outer'] is not None and any(u is st for b in st_['outer'].body for u in ast.walk(b)):
            st_['tj'] = st.target.id; i = idx(fr.l[st_['ti']]); covers(seq, i + 1, idx(N) - i - 1, 'all later samples'); return h2(ip, st, fr, seq)
        if nested: st_['outer'] = st; st_['ti'] = st.target.id; covers(seq, 0, N, 'all samples'); return h1(ip, st, fr, seq)
        st_['seen'].append(seq); return h3(ip, st, fr, seq)
    for no in range(1, 60): v.ip.loop_contracts[(qual, 'for', no)] = disp
    return st_, flush

def colmajor(a, r, c):
    """cvxopt.matrix(a, (r, c)) of a 1-d array"""
    return SArr((r, c), lambda i, j: a.at(i))
def cvxopt_stubs(v, solve):
    def matrix(a, *r):
        a = A.asarr(a)
        if a.ndim == 1: g = a.getter(); return SArr((a.shape[0], 1), lambda i, j: g(i))
        if a.ndim == 0: return SArr((1, 1), lambda i, j: a.at())
        return a
    ext(v, {'cvxopt.matrix': matrix, 'cvxopt.solvers.sdp': solve})
    v.ip.shims['cvxopt.solvers'].d['options'] = {}

def do_sdp(v, m, structure):
    """cvxopt.solvers.sdp, contract: x minimizes c^T x subject to  h_k - mat(G_k x)  positive semidefinite for every k (mat: column by column)"""
    s.DEFINED[0] = True; Q = LM + '._build_lipschitz_matrix_cvxopt'
    nE = m * (m + 1) // 2 if structure == 'full' else m; N, K = v.int('N'), v.int('K'); x = v.arr('sol', nE); cur = {}
    def slack(Gk, hk):
        Gk, hk = A.asarr(Gk), A.asarr(hk); r, c = hk.shape
        if not all(isinstance(z, int) for z in (r, c)) or tuple(Gk.shape) != (r * c, nE): v.ob('shape of a constraint', False); raise Unsupported('constraint')
        return [[s.sub(hk.at(i, j), sum_(s.mul(Gk.at(i + j * r, k), x.at(k)) for k in range(nE))) for j in range(c)] for i in range(r)]
    def solve(c, Gs=None, hs=None, **k):
        cur['solve'](A.asarr(c), Gs, hs); return {'x': x}
    cvxopt_stubs(v, solve)
    def obj(X, kw): return v.bare(LM, _dimension=m, kwargs=kw, epsilon=None)
    # without data: the matrix as a function of the coefficients
    def solve0(c, Gs, hs):
        v.ob('one constraint without data', len(Gs) == 1 and len(hs) == 1); cur['c0'] = c; cur['S0'] = slack(Gs[0], hs[0])
    cur['solve'] = solve0
    z0 = A.asarr([]); X0, f0 = SArr((0, m), lambda i, j: 0), SArr((0,), lambda i: 0)
    R = v.call(obj(X0, {}), '_build_lipschitz_matrix_cvxopt', X0, f0, X0, 0, structure=structure); v.shape('matrix', R, m, m)
    R0 = [[R.at(a, b) for b in range(m)] for a in range(m)]; S0 = cur['S0']
    for a in range(m):
        for b in range(m):
            v.ob('symmetric', s.eq(R0[a][b], R0[b][a])); v.ob('positive semidefinite', s.eq(S0[a][b], R0[a][b]))
            if structure == 'diag' and a != b: v.ob('diagonal', s.eq(R0[a][b], 0))
    v.ob('objective: trace', s.eq(sum_(s.mul(cur['c0'].at(k, 0), x.at(k)) for k in range(nE)), sum_(R0[a][a] for a in range(m))))
    with v.scope():       # the coefficients parametrize all matrices of the structure: the map is linear, injective, between spaces of the same dimension
        for a in range(m):
            for b in range(a, m): v.assume(s.eq(R0[a][b], 0))
        for k in range(nE): v.ob('all matrices of the structure', s.eq(x.at(k), 0))
    # with data
    X, f, G = v.arr('X', N, m), v.arr('f', N), v.arr('G', K, m); ep = v.real('eps', 0)
    n2 = lambda i, j: sum_(s.mul(s.sub(X.at(i, k), X.at(j, k)), s.sub(X.at(i, k), X.at(j, k))) for k in range(m))
    v.assume_all([N, N], lambda i, j: s.Implies(idx(i) < idx(j), s.lt(0, n2(i, j))))
    gap = lambda i, j: s.sub(s.abs_(s.sub(f.at(i), f.at(j))), ep)
    def check_pair(i, j, items):
        g = gap(i, j)
        if not items: v.ob('only pairs within epsilon are left out', s.le(g, 0)); return
        if len(items) != 1: v.ob('one constraint per pair', False); return
        C = slack(*items[0]); v.assume(s.lt(0, n2(i, j)))
        if len(C) != 1: v.ob('scalar constraint', False); return
        y = lambda k: s.sub(X.at(i, k), X.at(j, k))
        nn = root(n2(i, j)); v.assume(And(s.lt(0, nn), s.eq(s.mul(nn, nn), n2(i, j))))       # norm of the difference
        Gk, hk = A.asarr(items[0][0]), A.asarr(items[0][1])          # coefficient by coefficient (both sides are affine in the unknowns)
        coef = [[[z3.simplify(z3.substitute(s.R(S(R0[a][b]).e), *[(s.R(S(x.at(l)).e), z3.RealVal(1 if l == k else 0)) for l in range(nE)])) for b in range(m)] for a in range(m)] for k in range(nE)]
        zero = [z3.simplify(z3.substitute(s.R(S(R0[a][b]).e), *[(s.R(S(x.at(l)).e), z3.RealVal(0)) for l in range(nE)])) for a in range(m) for b in range(m)]
        v.ob('linear in the coefficients', And(*[z == 0 for z in zero]))
        for scaled in (True, False):
            w = (lambda t: s.mul(t, s.mul(nn, nn))) if scaled else (lambda t: t)
            obs = [s.eq(w(Gk.at(0, k)), s.neg(quadform(lambda a, b: Sym(coef[k][a][b]), m, y))) for k in range(nE)] + [s.eq(w(hk.at(0, 0)), s.neg(s.mul(s.maximum(0, g), s.maximum(0, g))))]
            if scaled and not all(v.ctx.prove(o, timeout=3000)[0] == 'proved' for o in obs): continue
            for o in obs: v.ob('bound for a pair', o)
            break
    def check_item(k, items):
        v.ob('one constraint per gradient', len(items) == 1); C = slack(*items[0])
        for a in range(m):
            for b in range(m): v.ob('gradient dominated', s.eq(C[a][b], s.sub(R0[a][b], s.mul(G.at(k, a), G.at(k, b)))))
    st, flush = pair_loops(v, Q, N, check_pair, check_item)
    def solve1(c, Gs, hs):
        loose = st['loose'] + list(zip(Gs.bag.items, hs.bag.items)); v.ob('one further constraint', len(loose) == 1 and len(Gs.bag.items) == len(hs.bag.items))
        if len(loose) != 1: return
        C = slack(*loose[0])
        for a in range(m):
            for b in range(m): v.ob('positive semidefinite', s.eq(C[a][b], R0[a][b]))
        v.ob('objective', And(*[s.eq(c.at(k, 0), cur['c0'].at(k, 0)) for k in range(nE)]))
        v.ob('pairs and gradients', st['outer'] is not None and len(st['seen']) == 1); q = st['seen'][0]; v.ob('all gradients', idx(q.n) == idx(K))
        v.forall('gradients', [K], lambda k: And(*[s.eq(A.asarr(q.get(k)).at(a), G.at(k, a)) for a in range(m)]))
    cur['solve'] = solve1
    Rd = v.call(obj(X, {'verbose': False, 'abstol': v.real('tol')}), '_build_lipschitz_matrix_cvxopt', X, f, G, ep, structure=structure)
    for a in range(m):
        for b in range(m): v.ob('matrix of the solution', s.eq(A.asarr(Rd).at(a, b), R0[a][b]))

@target('C14', LM + '._build_lipschitz_matrix_cvxopt')
def sdp_full2(v):
    """two inputs, any number of samples and gradients: the semidefinite program minimizes the trace over the symmetric positive semidefinite matrices with (|f_i - f_j| - epsilon)^2 <= (x_i - x_j)^T H (x_i - x_j) for every pair and g g^T <= H for every gradient"""
    do_sdp(v, 2, 'full')
@target('C14', LM + '._build_lipschitz_matrix_cvxopt')
def sdp_diag2(v):
    """two inputs, diagonal matrices"""
    do_sdp(v, 2, 'diag')
@target('C14', LM + '._build_lipschitz_matrix_cvxopt')
def sdp_full3(v):
    """three inputs"""
    do_sdp(v, 3, 'full')
@target('C14', LM + '._build_lipschitz_matrix_cvxopt')
def sdp_full1(v):
    """one input"""
    do_sdp(v, 1, 'full')

LP = 'psdr.lipschitz_partial:PartialLipschitzMatrix'
def partial_fit(v, full):
    m = v.int('m'); r = m if full else v.int('r'); N, K = v.int('N'), v.int('K'); X, f, G = v.arr('X', N, m), v.arr('f', N), v.arr('G', K, m); ep, sc = v.real('eps', 0), v.real('scale'); v.assume(s.lt(0, sc))
    if not full: v.assume(idx(r) < idx(m))
    U0, Us, J, al, w, E, sg = v.arr('U0', m, r), v.arr('Us', m, r), v.arr('J', r, r), v.real('alpha'), v.arr('w', r), v.arr('E', r, r), v.arr('sign', r); got = []
    def eigh(M, **k): v.ob('decomposition of the block', M is J); return w, E
    ext(v, {'numpy.linalg.eigh': eigh}); o = v.bare(LP, rank=v.num(r), U0=None if full else U0, verbose=False, epsilon=v.real('e'), _dimension=v.num(m))
    def signs(ip, loc): U = A.asarr(loc['U']); g = U.getter(); got.append(g); return SArr((m, r), lambda i, q: s.mul(sg.at(q), g(i, q)))
    v.contract('psdr.subspace:SubspaceBasedDimensionReduction._fix_subspace_signs', signs); rec = []
    def opt(ip, loc): rec.append(loc); return (Us, J, al)
    def fixed(ip, loc): rec.append(loc); v.eq_arr('whole space', loc['U'], (m, m), lambda i, j: s.ite(idx(i) == idx(j), 1, 0)); return (J, al)
    v.contract(LP + '._optimize', opt); v.contract(LP + '._fixed_U', fixed)
    v.call(o, '_fit', X, f, G, ep, sc); v.ob('one optimization', len(rec) == 1); loc = rec[0]; s.DEFINED[0] = True
    if not full: v.eq_arr('initial subspace', loc['U0'], (m, r), U0.at)
    v.eq_arr('samples', loc['X'], (N, m), X.at); v.eq_arr('scaled values', loc['fX'], (N,), lambda i: s.div(f.at(i), sc)); v.eq_arr('scaled gradients', loc['grads'], (K, m), lambda i, j: s.div(G.at(i, j), sc)); v.ob('epsilon', s.same(loc['epsilon'], ep))
    rv = lambda q: z3.simplify(idx(r) - 1 - idx(q)); s2 = s.mul(sc, sc)
    v.eq_arr('block: eigenvalues, nonnegative, in the original units', o.d['_J'], (r, r), lambda p, q: s.ite(idx(p) == idx(q), s.mul(s2, s.maximum(0, w.at(rv(p)))), 0))
    v.ob('remaining eigenvalues, nonnegative, in the original units', s.eq(o.d['_alpha'], s.mul(s2, s.maximum(0, al))))
    base_ = (lambda i, p: s.ite(idx(i) == idx(p), 1, 0)) if full else Us.at
    v.eq_arr('subspace rotated to the eigenvectors', o.d['_U'], (m, r), lambda i, q: s.mul(sg.at(q), v.sum(r, lambda p: s.mul(base_(i, p), E.at(p, rv(q))))))

@target('C14', LP + '._fit')
def partial_sub(v):
    """partial Lipschitz matrix: the block is diagonalized, its eigenvalues and the remaining one are nonnegative and scaled back, the subspace rotated to the eigenvectors"""
    partial_fit(v, False)
@target('C14', LP + '._fit')
def partial_full(v):
    """the same with full rank"""
    partial_fit(v, True)

@target('C14', LP + '.H', LP + '.U', LP + '.J', LP + '.alpha')
def partial_H(v):
    """squared matrix U J U^T + alpha (I - U U^T)"""
    m, r = v.int('m'), v.int('r'); U, J, al = v.arr('U', m, r), v.arr('J', r, r), v.real('alpha')
    H = v.attr(v.bare(LP, _U=U, _J=J, _alpha=al), 'H')
    v.eq_arr('squared matrix', H, (m, m), lambda i, j: s.add(v.sum(r, lambda p: s.mul(v.sum(r, lambda q: s.mul(U.at(i, q), J.at(q, p))), U.at(j, p))), s.mul(al, s.sub(s.ite(idx(i) == idx(j), 1, 0), v.sum(r, lambda q: s.mul(U.at(i, q), U.at(j, q)))))))

@target('C14', LP + '.L')
def partial_L(v):
    """the factor is Q diag(sqrt(J), sqrt(alpha)) Q^T for an orthogonal Q whose first columns span the subspace"""
    m, r = v.int('m'), v.int('r'); v.assume(idx(r) < idx(m)); U, J, al, Q = v.arr('U', m, r), v.arr('J', r, r), v.real('alpha'), v.arr('Q', m, m)
    v.assume_all([r], lambda q: s.le(0, J.at(q, q))); v.assume(s.le(0, al))
    def qr(M, mode='reduced'): v.ob('complete factorization', mode == 'complete'); v.eq_arr('of the subspace', M, (m, r), U.at); return Q, v.arr('R', m, r)
    ext(v, {'numpy.linalg.qr': qr}); L = v.attr(v.bare(LP, _U=U, _J=J, _alpha=al), 'L')
    v.eq_arr('factor', L, (m, m), lambda i, j: v.sum(m, lambda q: s.mul(s.mul(Q.at(i, q), root(s.ite(idx(q) < idx(r), J.at(q, q), al))), Q.at(j, q))))

@target('C14', LC + '.H', LC + '.L', LC + '.U')
def constant_props(v):
    """constant: matrices of the scalar"""
    m = v.int('m'); L = v.real('L', 0); o = v.bare(LC, _L=L, _dimension=v.num(m)); d = lambda i, j: idx(i) == idx(j)
    v.eq_arr('H', v.attr(o, 'H'), (m, m), lambda i, j: s.ite(d(i, j), s.mul(L, L), 0)); v.eq_arr('L', v.attr(o, 'L'), (m, m), lambda i, j: s.ite(d(i, j), L, 0)); v.eq_arr('U', v.attr(o, 'U'), (m, m), lambda i, j: s.ite(d(i, j), 1, 0))
