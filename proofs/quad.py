"""C18: quadrature rules.  The Golub-Welsch theorem enters as a contract on the eigenvalue decomposition of the Legendre Jacobi matrix."""
from .ext import *
E_ = DOM + 'euclidean:EuclideanDomain.'
LQ, BOX = DOM + 'linquad:LinQuadDomain', DOM + 'box:BoxDomain'

def jacobi(v, st):
    """eigh(T): nodes x in (-1, 1), orthonormal vectors ev; for the Legendre Jacobi matrix sum_k 2 ev[0,k]^2 f(x_k) is the integral over
    [-1, 1] of every polynomial f of degree <= 2n-1"""
    def eigh(T, **k):
        T = A.asarr(T); n = T.shape[0]; st['n'] = n
        be = lambda i: s.div(num1(i), root(s.sub(s.mul(4, s.mul(num1(i), num1(i))), 1)))
        num1 = lambda i: Sym(z3.ToReal(idx(i) + 1))
        root = lambda a: Sym(s.sqrt_term(s.R(S(a).e)))
        v.ob('square', A.ieq(T.shape[0], T.shape[1]))
        v.forall('main diagonal zero and nothing beyond the first off-diagonal', [n, n], lambda i, j: Implies(Not(z3.Or(idx(i) == idx(j) + 1, idx(j) == idx(i) + 1)), s.eq(T.at(i, j), 0)))
        v.forall('symmetric', [n, n], lambda i, j: s.eq(T.at(i, j), T.at(j, i)))
        o = lambda i: T.at(i, Sym(idx(i) + 1).e)
        v.forall('recurrence coefficients of the Legendre polynomials: b_k^2 (4 k^2 - 1) = k^2, b_k > 0', [n - 1 if isinstance(n, int) else n - 1], lambda i: And(s.lt(0, o(i)), s.eq(s.mul(s.mul(o(i), o(i)), s.sub(s.mul(4, s.mul(num1(i), num1(i))), 1)), s.mul(num1(i), num1(i)))))
        x, ev = fresh_arr(v, 'node', n), fresh_arr(v, 'ev', n, n); st.update(x=x, ev=ev)
        v.assume_all([n], lambda k: And(s.lt(-1, x.at(k)), s.lt(x.at(k), 1)))
        return x, ev
    return eigh

def setup(v):
    st = {}; ext(v, {'scipy.linalg.eigh': jacobi(v, st)})
    N = v.int('N'); a, b = v.real('a'), v.real('b'); v.assume(s.lt(a, b))
    x, w = v.fcall('psdr.quadrature:gauss', v.num(N), a, b)
    return st, N, a, b, x, w

@target('C18', 'psdr.quadrature:gauss')
def gauss_rule(v):
    """nodes and weights are those of the Golub-Welsch theorem mapped affinely to [a, b]; any number of nodes"""
    st, N, a, b, x, w = setup(v); X, ev = st['x'], st['ev']; h = s.div(s.sub(b, a), 2)
    v.ob('size', A.ieq(st['n'], N))
    v.eq_arr('nodes', x, (N,), lambda k: s.add(a, s.mul(h, s.add(1, X.at(k)))))
    v.eq_arr('weights', w, (N,), lambda k: s.mul(h, s.mul(2, s.mul(ev.at(0, k), ev.at(0, k)))))
    v.forall('nodes inside', [N], lambda k: And(s.lt(a, x.at(k)), s.lt(x.at(k), b)))
    v.forall('weights nonnegative', [N], lambda k: s.le(0, w.at(k)))

@target('C18', 'psdr.quadrature:gauss')
def gauss_exact(v):
    """a function whose pull-back to [-1, 1] is integrated exactly there is integrated exactly on [a, b]"""
    st, N, a, b, x, w = setup(v); X, ev = st['x'], st['ev']; h = s.div(s.sub(b, a), 2)
    F = z3.Function('in_F', RL, RL); I0 = v.real('I')
    f = lambda t: Sym(F(s.R(S(t).e)))
    v.assume(s.eq(v.sum(N, lambda k: s.mul(s.mul(2, s.mul(ev.at(0, k), ev.at(0, k))), f(s.add(a, s.mul(h, s.add(1, X.at(k))))))), I0))
    v.ob('exact', s.eq(v.sum(N, lambda k: s.mul(w.at(k), f(x.at(k)))), s.mul(h, I0)))

def gcontract(v, st):
    """gauss by its contract: nodes inside the interval, nonnegative weights, exact sums are products of one-dimensional ones"""
    def g(ip, loc):
        n = s.S(loc['N']); st.setdefault('calls', []).append((loc['N'], loc['a'], loc['b']))
        k = A.ix(ip.np.d['_cast'](ip.builtins['int'], loc['N'])); x, w = fresh_arr(v, 'gx', k), fresh_arr(v, 'gw', k)
        lo, hi = SArr((1,), lambda i: loc['a']).at(0), SArr((1,), lambda i: loc['b']).at(0)
        v.assume_all([k], lambda i: And(s.lt(lo, x.at(i)), s.lt(x.at(i), hi), s.le(0, w.at(i))))
        st.setdefault('rules', []).append((k, x, w)); return x, w
    return g

def boxrule(v, m, method):
    v.ctx.selall = True
    N = v.int('N'); lb, ub = v.arr('lb', m), v.arr('ub', m); v.assume_all([m], lambda j: s.lt(lb.at(j), ub.at(j))); st = {}
    d = v.bare(BOX, _dimension=m, _lb=lb, _ub=ub); v.contract('psdr.quadrature:gauss', gcontract(v, st)); v.contract(BOX + '.is_point', lambda ip, loc: False)
    X, w = v.call(d, 'quadrature_rule', v.num(N), method) if method else v.call(d, 'quadrature_rule', v.num(N))
    return N, lb, ub, st, X, w

def do_box(v, m):
    N, lb, ub, st, X, w = boxrule(v, m, 'gauss')
    rl, cl = st.get('rules', []), st.get('calls', [])
    v.ob('one rule per coordinate', len(rl) == m)
    if len(rl) != m: return
    q = rl[0][0]; Q = q
    for _ in range(m - 1): Q = Q * q
    for j in range(m):
        v.ob('rule on the interval of the coordinate', And(s.eq(cl[j][1], lb.at(j)), s.eq(cl[j][2], ub.at(j)), idx(rl[j][0]) == idx(q)))
    v.ob('at most N nodes', Q <= N)
    v.ob('number of nodes', A.ieq(X.shape[0], Q)); v.ob('columns', A.ieq(X.shape[1], m)); v.ob('weights', A.ieq(w.shape[0], Q))
    ks = v.fresh([q] * m); row = ks[0] if m == 1 else ks[1] * q + ks[0]
    for j in range(m): v.ob('every combination of nodes', s.eq(X.at(row, j), rl[j][1].at(ks[j])))
    p = rl[0][2].at(ks[0])
    for j in range(1, m): p = s.mul(p, rl[j][2].at(ks[j]))
    v.ob('product weights', s.eq(w.at(row), p))
    v.forall('nodes inside', [X.shape[0], m], lambda i, j: And(s.le(lb.at(j), X.at(i, j)), s.le(X.at(i, j), ub.at(j))))

@target('C18', E_ + 'quadrature_rule')
def box1(v):
    """Gauss rule on an interval with any number of points"""
    do_box(v, 1)
@target('C18', E_ + 'quadrature_rule')
def box2(v):
    """tensor rule on a rectangle with any number of points"""
    do_box(v, 2)

@target('C18', E_ + 'quadrature_rule', E_ + 'volume')
def montecarlo(v):
    """equal weights with total the volume of the box; the nodes are the sample"""
    m, N = v.int('m'), v.int('N'); lb, ub = v.arr('lb', m), v.arr('ub', m); v.assume_all([m], lambda j: s.lt(lb.at(j), ub.at(j)))
    d = v.bare(BOX, _dimension=v.num(m), _lb=lb, _ub=ub); f = z3.Function('in_draws', I, I, RL)
    def contract(ip, loc): v.ob('asks for N samples', A.ieq(A.ix(loc['draw']), N)); return SArr((N, m), lambda i, j: Sym(f(idx(i), idx(j))))
    v.contract(E_ + 'sample', contract); v.contract(BOX + '.is_point', lambda ip, loc: False)
    X, w = v.call(d, 'quadrature_rule', v.num(N), 'montecarlo')
    v.eq_arr('nodes', X, (N, m), lambda i, j: Sym(f(idx(i), idx(j))))
    vol = v.ctx.prod_(m, lambda j: s.sub(ub.at(j), lb.at(j)))
    v.eq_arr('equal weights, total the volume', w, (N,), lambda i: s.div(vol, v.num(N)))

@target('C18', E_ + 'volume')
def volume(v):
    """volume of a general domain: the sampled fraction of the bounding box times its volume"""
    m = v.int('m'); lo, hi = v.arr('nlb', m), v.arr('nub', m); v.assume_all([m], lambda j: s.lt(lo.at(j), hi.at(j)))
    d = v.bare(LQ, _dimension=v.num(m)); v.contract(E_ + 'norm_lb', lambda ip, loc: lo); v.contract(E_ + 'norm_ub', lambda ip, loc: hi); v.contract(E_ + '_is_box_domain', lambda ip, loc: False)
    ins = z3.Function('in_inside', I, B)
    def ii(ip, loc):
        Y = A.asarr(loc['X']); v.forall('samples in the bounding box', [Y.shape[0], m], lambda i, j: And(s.le(lo.at(j), Y.at(i, j)), s.le(Y.at(i, j), hi.at(j))))
        return SArr((Y.shape[0],), lambda i: ins(idx(i)), 'b')
    v.contract(E_ + 'isinside', ii); K = v.int('K')
    r = v.call(d, 'volume', v.num(K))
    box = v.ctx.prod_(m, lambda j: s.sub(hi.at(j), lo.at(j)))
    cnt = Sym(v.ctx.select(K, lambda i: ins(idx(i)))[0])
    v.ob('fraction of the bounding box', s.eq(r, s.mul(box, s.div(cnt, v.num(K)))))

def do_general(v, method):
    m = 2; N = v.int('N'); lo, hi = v.arr('nlb', m), v.arr('nub', m); v.assume_all([m], lambda j: s.lt(lo.at(j), hi.at(j))); st = {}
    d = v.bare(LQ, _dimension=m); v.contract('psdr.quadrature:gauss', gcontract(v, st))
    v.contract(E_ + 'norm_lb', lambda ip, loc: lo); v.contract(E_ + 'norm_ub', lambda ip, loc: hi)
    v.contract(E_ + 'is_point', lambda ip, loc: False); v.contract(E_ + 'is_unbounded', lambda ip, loc: False); v.contract(LQ + '.A_eq', lambda ip, loc: A.const_arr((0, m), 0))
    INS = z3.Function('in_INS', RL, RL, B); pt = lambda X, i: INS(s.R(S(X.at(i, 0)).e), s.R(S(X.at(i, 1)).e))
    def ii(ip, loc):
        Y = SArr(loc['X'].shape, loc['X'].getter()); v.ob('points as rows', Y.ndim == 2 and A.dimeq(Y.shape[1], m) is True)
        return SArr((Y.shape[0],), lambda i: pt(Y, i), 'b')
    v.contract(E_ + 'isinside', ii)
    def good(tag, X, w, k=None):
        v.ob(tag + ': at most N nodes', idx(X.shape[0]) <= N); v.ob(tag + ': one weight per node', A.ieq(X.shape[0], w.shape[0])); v.ob(tag + ': coordinates', A.ieq(X.shape[1], m))
        v.forall(tag + ': nodes inside', [X.shape[0]], lambda i: pt(X, i)); v.forall(tag + ': weights nonnegative', [X.shape[0]], lambda i: s.le(0, w.at(i)))
    def inv(fr, tag, k=None): good(tag, fr.l['X'], fr.l['w'])
    def havoc(fr, k):
        n = v.ctx.fresh('n'); v.assume(z3.And(n >= 0, n <= N)); q = v.ctx.fresh('q'); v.assume(q >= 1)
        X, w = fresh_arr(v, 'X', n, m), fresh_arr(v, 'w', n); v.assume_all([n], lambda i: And(pt(X, i), s.le(0, w.at(i))))
        fr.l['X'], fr.l['w'], fr.l['qs'] = X, w, SArr((m,), lambda j: Sym(z3.ToReal(q)))
    v.loop(E_ + 'quadrature_rule', 1, havoc, inv)
    if method == 'montecarlo':
        vol = v.real('vol', 0); v.contract(E_ + 'volume', lambda ip, loc: vol); D = fresh_arr(v, 'D', N, m); v.assume_all([N], lambda i: pt(D, i))
        def sample(ip, loc): v.ob('asks for N samples', A.ieq(A.ix(loc['draw']), N)); return D
        v.contract(E_ + 'sample', sample)
    X, w = v.call(d, 'quadrature_rule', v.num(N), method)
    good('result', X, w)
    if method == 'montecarlo': v.forall('equal weights', [N], lambda i: s.eq(s.mul(w.at(i), v.num(N)), vol))

@target('C18', E_ + 'quadrature_rule')
def general_gauss(v):
    """two-dimensional domain of any shape: nodes inside, nonnegative weights, at most N nodes (loop invariant)"""
    do_general(v, 'gauss')
@target('C18', E_ + 'quadrature_rule')
def general_montecarlo(v):
    """equal weights summing to the volume, nodes inside"""
    do_general(v, 'montecarlo')
