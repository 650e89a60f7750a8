"""C05: the tensor product is the blockwise product of its factors (any factor dimensions and constraints; 3 factors)."""
from .lib import *
from .normdomain import names
from .membership import TOL
T_ = DOM + 'tensor:TensorProductDomain.'
CL = DOM + 'linquad:LinQuadDomain'

def factor(v, t):
    m = v.int('m' + t)
    lb, ub = bounds(v, m, t)
    n, p, K = v.int('n' + t, 0), v.int('p' + t, 0), v.int('K' + t, 0)
    nlb, nub = v.ext('nlb' + t, m, ni=True), v.ext('nub' + t, m, pi=True)
    S_ = Sys(m, lb, ub, v.arr('A' + t, n, m), v.arr('b' + t, n), v.arr('Ae' + t, p, m), v.arr('be' + t, p), quads(v, m, K, t))
    d = v.bare(CL, _norm_lb=nlb, _norm_ub=nub, _dimension=Sym(m), _lb=lb, _ub=ub, _A=S_.A, _b=S_.b, _A_eq=S_.Ae, _b_eq=S_.be, _Ls=S_.quad[0], _ys=S_.quad[1], _rhos=S_.quad[2],
               tol=Fraction(1, 1000000), kwargs={}, _names=SList(m, lambda i: 'x'))
    return d, S_

def product(v, k=3):
    fs = [factor(v, 'abc'[i]) for i in range(k)]
    d = v.new(DOM + 'tensor:TensorProductDomain', [f[0] for f in fs])
    off, offs = 0, []
    for k, (f, S_) in enumerate(fs): offs.append(off); off = S_.m if k == 0 else off + S_.m
    return d, fs, offs, off

@target('C05', T_ + '__len__', T_ + 'lb', T_ + 'ub', T_ + '_slices')
def bounds_concatenated(v):
    """dimension and bounds are the concatenation of the factors'"""
    d, fs, offs, M = product(v)
    v.ob('dimension', A.ieq(v.call(d, '__len__'), M))
    for nm in ('lb', 'ub'):
        a = v.attr(d, nm)
        if not v.shape(nm, a, M): continue
        for (f, S_), o in zip(fs, offs):
            v.forall('%s block' % nm, [S_.m], lambda j: s.same(a.at(o + j), getattr(S_, nm).at(j)))

def rows(v, d, fs, offs, M, an, bn, A_, b_):
    a, b = v.attr(d, an), v.attr(d, bn)
    R = sum((idx(getattr(S_, A_).shape[0]) for f, S_ in fs), idx(0))
    if not (v.shape(an, a, R, M) and v.shape(bn, b, R)): return
    r = idx(0)
    for k, (f, S_) in enumerate(fs):
        Ak, bk = getattr(S_, A_), getattr(S_, b_); o = offs[k]
        n = Ak.shape[0]
        v.forall('row of factor acts on its own block', [n, S_.m], lambda i, j: s.same(a.at(r + i, o + j), Ak.at(i, j)))
        v.forall('and on no other coordinate', [n, M], lambda i, j: Implies(Or(j < idx(o), j >= idx(o) + S_.m), s.same(a.at(r + i, j), 0)))
        v.forall('right hand side', [n], lambda i: s.same(b.at(r + i), bk.at(i)))
        r = r + n

@target('C05', T_ + 'A', T_ + 'b')
def ineq_blocks(v):
    """inequality constraints are those of the factors on their own block and zero elsewhere"""
    d, fs, offs, M = product(v)
    rows(v, d, fs, offs, M, 'A', 'b', 'A', 'b')

@target('C05', T_ + 'A_eq', T_ + 'b_eq')
def eq_blocks(v):
    """equality constraints are those of the factors on their own block and zero elsewhere"""
    d, fs, offs, M = product(v)
    rows(v, d, fs, offs, M, 'A_eq', 'b_eq', 'Ae', 'be')

@target('C01 C05', T_ + '_isinside')
def tensor_isinside(v):
    """a point is inside exactly when every block is inside its factor (factor membership by its contract)"""
    d, fs, offs, M = product(v)
    N = v.int('N'); X = v.arr('X', N, M); tol = v.real('tol', 0)
    calls = []
    def contract(ip, loc):
        i = [f[0] for f in fs].index(loc['self']); Xb, t = loc['X'], loc['tol']
        calls.append(i)
        S_ = fs[i][1]
        v.ob('factor is given its own block', And(A.ieq(Xb.shape[0], N), A.ieq(Xb.shape[1], S_.m)))
        v.forall('factor is given its own block of values', [N, S_.m], lambda r, j: s.same(Xb.at(r, j), X.at(r, offs[i] + j)))
        v.ob('the tolerance is passed on', s.same(t, tol))
        g = z3.Function('inside_%d' % i, I, B)
        return SArr((N,), lambda r: g(idx(r)), 'b')
    v.contract(E_ + 'isinside', contract)
    r = v.call(d, '_isinside', X, tol=tol)
    if v.shape('shape', r, N):
        v.forall('inside iff all factors inside', [N], lambda i: Iff(r.at(i), And(*[z3.Function('inside_%d' % k, I, B)(i) for k in range(len(fs))])))

E_ = DOM + 'euclidean:EuclideanDomain.'

@target('C05 C06', T_ + '_extent')
def tensor_extent(v):
    """the extent is the smallest of the factors' extents of their own blocks"""
    d, fs, offs, M = product(v)
    x, p = v.arr('x', M), v.arr('p', M)
    ex = [v.real('extent%d' % i, 0) for i in range(len(fs))]
    def contract(ip, loc):
        i = [f[0] for f in fs].index(loc['self']); xb, pb = loc['x'], loc['p']
        S_ = fs[i][1]
        v.eq_arr('x block', xb, (S_.m,), lambda j: x.at(offs[i] + j)); v.eq_arr('p block', pb, (S_.m,), lambda j: p.at(offs[i] + j))
        return ex[i]
    v.contract(CL + '._extent', contract)
    r = v.call(d, '_extent', x, p)
    v.ob('not larger than any factor', And(*[s.le(r, e) for e in ex])); v.ob('attained', Or(*[s.eq(r, e) for e in ex]))

@target('C02 C05', T_ + '_normalize', T_ + '_unnormalize', T_ + '_center', T_ + '_normalize_der', T_ + '_unnormalize_der')
def tensor_normalize(v):
    """normalization is blockwise; center and derivative matrices are those of the blocks"""
    from .normalize import slope, islope
    d, fs, offs, M = product(v, 2)
    for f, S_ in fs: v.assume_all([S_.m], lambda j: s.le(f.d['_norm_lb'].at(j), f.d['_norm_ub'].at(j)))
    N = v.int('N'); X = v.arr('X', N, M)
    Y, Z = v.call(d, 'normalize', X), v.call(d, 'unnormalize', X)
    c, D, Di = v.call(d, '_center'), v.call(d, '_normalize_der'), v.call(d, '_unnormalize_der')
    v.shape('Y', Y, N, M); v.shape('Z', Z, N, M); v.shape('c', c, M); v.shape('D', D, M, M); v.shape('Di', Di, M, M)
    v.forall('D diagonal', [M, M], lambda i, j: Implies(i != j, And(s.same(D.at(i, j), 0), s.same(Di.at(i, j), 0))))
    for (f, S_), o in zip(fs, offs):
        nl, nu = f.d['_norm_lb'], f.d['_norm_ub']
        fY, fZ, fc = v.call(f, 'normalize', X_block(X, o, S_.m, N)), v.call(f, 'unnormalize', X_block(X, o, S_.m, N)), v.call(f, '_center')
        v.forall('normalize block', [N, S_.m], lambda i, j: s.same(Y.at(i, o + j), fY.at(i, j)))
        v.forall('unnormalize block', [N, S_.m], lambda i, j: s.same(Z.at(i, o + j), fZ.at(i, j)))
        v.forall('center block', [S_.m], lambda j: s.same(c.at(o + j), fc.at(j)))
        v.forall('normalize_der block', [S_.m], lambda j: s.same(D.at(o + j, o + j), slope(nl, nu, j)))
        v.forall('unnormalize_der block', [S_.m], lambda j: s.same(Di.at(o + j, o + j), islope(nl, nu, j)))

def X_block(X, o, m, N): return SArr((N, m), lambda i, j: X.at(i, idx(o) + idx(j)))

@target('C05', T_ + 'Ls', T_ + 'ys', T_ + 'rhos')
def quad_blocks(v):
    """quadratic constraints are those of the factors, embedded in their own block with zeros elsewhere"""
    d, fs, offs, M = product(v, 2)
    Ls, ys, rs = v.attr(d, 'Ls'), v.attr(d, 'ys'), v.attr(d, 'rhos')
    K = sum((idx(S_.quad[0].n) for f, S_ in fs), idx(0))
    v.ob('number', And(A.ieq(Ls.n, K), A.ieq(ys.n, K), A.ieq(rs.n, K)))
    base = idx(0)
    for k, (f, S_) in enumerate(fs):
        c, = v.fresh([S_.quad[0].n]); o = offs[k]
        L, y, r = Ls.get(base + c), ys.get(base + c), rs.get(base + c)
        L0, y0, r0 = [q.get(c) for q in S_.quad]
        if v.shape('L', L, L0.shape[0], M) and v.shape('y', y, M):
            v.forall('L acts on its own block', [L0.shape[0], S_.m], lambda i, j: s.same(L.at(i, o + j), L0.at(i, j)))
            v.forall('L ignores the other blocks', [L0.shape[0], M], lambda i, j: Implies(Or(j < idx(o), j >= idx(o) + S_.m), s.same(L.at(i, j), 0)))
            v.forall('y block', [S_.m], lambda j: s.same(y.at(o + j), y0.at(j)))
            v.ob('rho', s.same(r, r0))
        base = base + S_.quad[0].n

@target('C05', T_ + '__init__')
def flatten(v):
    """nested products flatten to the same factors in the same order; names are concatenated"""
    a, b, c = [factor(v, t)[0] for t in 'abc']
    ab = v.new(DOM + 'tensor:TensorProductDomain', [a, b])
    d = v.new(DOM + 'tensor:TensorProductDomain', [ab, c])
    e = v.new(DOM + 'tensor:TensorProductDomain', [a, v.new(DOM + 'tensor:TensorProductDomain', [b, c])])
    f = v.new(DOM + 'tensor:TensorProductDomain', [a, b, c])
    for q in (d, e, f):
        l = v.attr(q, 'domains')
        v.ob('factors in order', len(l) == 3 and l[0] is a and l[1] is b and l[2] is c)

@target('C05', E_ + '__mul__')
def mul(v):
    """the product operator builds the tensor product in the written order"""
    a, b = [factor(v, t)[0] for t in 'ab']
    l = v.attr(v.call(a, '__mul__', b), 'domains')
    v.ob('a * b', len(l) == 2 and l[0] is a and l[1] is b)

@target('C05 C07', T_ + '_sample')
def tensor_sample(v):
    """each block of a sample is a sample of its factor (factor sampling by its contract)"""
    d, fs, offs, M = product(v)
    N = v.int('N', 2)
    rets = {}
    def contract(ip, loc):
        i = [f[0] for f in fs].index(loc['self'])
        v.ob('number of samples passed on', A.ieq(A.ix(loc['draw']), N))
        rets[i] = v.arr('sample%d' % i, N, fs[i][1].m); return rets[i]
    v.contract(E_ + 'sample', contract)
    r = v.call(d, '_sample', draw=Sym(N))
    v.ob('every factor sampled', sorted(rets) == list(range(len(fs))))
    if v.shape('shape', r, N, M):
        for i, (f, S_) in enumerate(fs): v.forall('block', [N, S_.m], lambda k, j: s.same(r.at(k, offs[i] + j), rets[i].at(k, j)))
