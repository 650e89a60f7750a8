"""C22: local linear models."""
from .ext import *
L_ = 'psdr.local_linear:'

def lstsq_affine(v, m, M, X, f, c0, c, seen):
    """scipy.linalg.lstsq, contract: if the system has an exact solution, the returned vector is one (coefficients, residues, rank, singular values)"""
    def lstsq(W, b, **k):
        W, b = A.asarr(W), A.asarr(b)
        if not v.shape('system size', W, M, idx(m) + 1) or not v.shape('right-hand side size', b, M, 1): raise Unsupported('system')
        wt = lambda i: W.at(i, 0)
        v.forall('weights are positive', [M], lambda i: s.lt(0, wt(i)))
        v.forall('weighted samples', [M, m], lambda i, j: s.eq(W.at(i, z3.simplify(1 + idx(j))), s.mul(wt(i), X.at(i, j))))
        v.forall('weighted values', [M], lambda i: s.eq(b.at(i, 0), s.mul(wt(i), f.at(i))))
        a = fresh_arr(v, 'coef', idx(m) + 1, 1); row = lambda i: s.add(a.at(0, 0), v.sum(m, lambda j: s.mul(a.at(z3.simplify(1 + idx(j)), 0), X.at(i, j))))
        v.assume_all([M], lambda i: s.eq(s.mul(wt(i), row(i)), s.mul(wt(i), f.at(i))))
        v.have_all('fits every sample', [M], lambda i: s.eq(row(i), f.at(i)))
        seen.append(a); return a, Opaque('residues'), Opaque('rank'), Opaque('s')
    ext(v, {'scipy.linalg.lstsq': lstsq})

def do_loclin(v, how, xt):
    m, M, T = v.int('m'), v.int('M', 3), v.int('T'); X = v.arr('X', M, m); c0, c = v.real('c0'), v.arr('c', m); Xt = v.arr('Xt', T, m) if xt else X; T = T if xt else M
    f0 = v.arr('f', M); v.assume_all([M], lambda i: s.eq(f0.at(i), s.add(c0, v.sum(m, lambda j: s.mul(c.at(j), X.at(i, j))))))
    seen = []; lstsq_affine(v, m, M, X, f0, c0, c, seen)
    ext(v, {'scipy.spatial.distance.cdist': lambda P, Q, kind: cd(P, Q, kind)})
    def cd(P, Q, kind):
        v.ob('squared distances to the query point', kind == 'sqeuclidean'); v.eq_arr('from the samples', P, (M, m), lambda i, j: X.at(i, j)); Q = A.asarr(Q)
        v.shape('to one query point', Q, 1, m)
        return SArr((M, 1), lambda i, j: v.sum(m, lambda q: (lambda t: s.mul(t, t))(s.sub(P.at(i, q), Q.at(0, q)))))
    def pb(ip, loc):
        v.ob('bandwidth for the requested perplexity', s.same(loc['perplexity'], perp)); b = fresh_real('beta'); v.assume(s.lt(0, b)); return b
    v.contract(L_ + 'perplexity_bandwidth', pb)
    fit = lambda R, r, i: s.eq(s.add(R.at(r, 0), v.sum(m, lambda j: s.mul(R.at(r, z3.simplify(1 + idx(j))), X.at(i, j)))), f0.at(i))
    def inv(fr, tag, k=None): v.forall(tag, [0 if k is None else k + 1, M], lambda r, i: fit(fr.l['A'], r, i))
    def havoc(fr, k):
        R = fresh_arr(v, 'A', T, idx(m) + 1); v.assume_all([k, M], lambda r, i: fit(R, r, i)); fr.l['A'] = R
    v.loop(L_ + 'local_linear', 1, havoc, inv, kind='for')
    kw = {'Xt': Xt} if xt else {}; perp = None
    if how == 'perplexity': perp = v.real('perplexity'); v.assume(And(s.le(2, perp), s.lt(perp, v.num(M)))); kw['perplexity'] = perp
    elif how == 'default': perp = v.num(idx(m) + 1); v.assume(idx(m) + 1 < M)
    else: bw = v.real('bandwidth'); v.assume(s.lt(0, bw)); kw['bandwidth'] = bw
    R = v.fcall(L_ + 'local_linear', X, f0, **kw)
    if not v.shape('one row per query point', R, T, idx(m) + 1): return
    v.forall('every row reproduces the affine function at every sample', [T, M], lambda r, i: fit(R, r, i))

@target('C22', L_ + 'local_linear')
def bandwidth(v):
    """given bandwidth: every row of coefficients reproduces an affine function at every sample (so equals it when the samples are affinely independent)"""
    do_loclin(v, 'bandwidth', False)
@target('C22', L_ + 'local_linear')
def bandwidth_at(v):
    """the same at query points other than the samples"""
    do_loclin(v, 'bandwidth', True)
@target('C22', L_ + 'local_linear')
def perplexity(v):
    """given perplexity: bandwidths are requested for it, every row reproduces an affine function"""
    do_loclin(v, 'perplexity', True)
@target('C22', L_ + 'local_linear')
def default(v):
    """default perplexity m + 1"""
    do_loclin(v, 'default', False)

@target('C22', L_ + 'local_linear_grads')
def grads(v):
    """gradients are the slope part of the local linear model, all arguments passed on"""
    m, M, T = v.int('m'), v.int('M', 3), v.int('T'); X, f, Xt = v.arr('X', M, m), v.arr('f', M), v.arr('Xt', T, m); R = fresh_arr(v, 'A', T, idx(m) + 1); p, b = v.real('p'), v.real('b')
    def ll(ip, loc):
        v.ob('arguments passed on', loc['X'] is X and loc['fX'] is f and loc['Xt'] is Xt and loc['perplexity'] is p and loc['bandwidth'] is b); return R
    v.contract(L_ + 'local_linear', ll)
    G = v.fcall(L_ + 'local_linear_grads', X, f, perplexity=p, bandwidth=b, Xt=Xt)
    v.eq_arr('slopes', G, (T, m), lambda r, j: R.at(r, z3.simplify(1 + idx(j))))

@target('C22', L_ + 'log_entropy')
def entropy(v):
    """the logarithm of the perplexity of the normalized kernel weights: H = - sum p log p with p = exp(-beta d)/sum"""
    M = v.int('M'); d, b = v.arr('d', M), v.real('beta'); H = v.fcall(L_ + 'log_entropy', b, d)
    e = lambda i: s.exp(s.neg(s.mul(b, d.at(i)))); S_ = v.sum(M, e); v.have('first', s.lt(0, e(0))); v.have('positive total', s.lt(0, S_)); p = lambda i: s.div(e(i), S_)
    logp = lambda i: s.sub(s.neg(s.mul(b, d.at(i))), s.log(S_))          # log p = log e - log S
    v.have('probabilities sum to one', s.eq(v.sum(M, p), 1))
    v.ob('entropy', s.eq(H, s.neg(v.sum(M, lambda i: s.mul(p(i), logp(i))))))

@target('C22', L_ + 'perplexity_bandwidth')
def bandwidth_root(v):
    """the returned bandwidth solves entropy(bandwidth) = log perplexity for the (shifted) distances"""
    M = v.int('M', 3); d, P = v.arr('d', M), v.real('perplexity'); v.assume(And(s.le(2, P), s.lt(P, v.num(M)))); v.assume_all([M], lambda i: s.le(0, d.at(i)))
    i0, i1 = v.fresh([M, M]); v.assume(s.lt(d.at(i0), d.at(i1)))         # the distances are not all the same
    got = []
    def rs(fun, bracket=None, **k):
        x = fresh_real('root'); r = v.ip.call(fun, [x], {}); v.assume(s.eq(r, 0)); got.append(x)       # contract: a root of the function
        return Ns('res', {'root': x})
    ext(v, {'scipy.optimize.root_scalar': rs})
    v.contract(L_ + '_compute_p1', lambda ip, loc: p1)
    p1 = v.real('p1'); v.assume(And(s.lt(Fraction(1, 2), p1), s.lt(p1, 1)))
    le = []
    def lent(ip, loc): le.append((loc['beta'], loc['d'])); return ent(loc['beta'])
    E = z3.Function('entropy', RL, RL); ent = lambda b: Sym(E(s.R(s.S(b).e)))
    v.contract(L_ + 'log_entropy', lent)
    b = v.fcall(L_ + 'perplexity_bandwidth', d, P)
    v.ob('one root', len(got) == 1 and len(le) == 1 and b is got[0])
    v.ob('entropy at the returned bandwidth', s.eq(ent(b), s.log(P)))
    D = A.asarr(le[0][1]); i, j = v.fresh([M, M])
    v.ob('distances up to a common shift', s.eq(s.sub(D.at(i), D.at(j)), s.sub(d.at(i), d.at(j))))

def do_opg(v, std):
    O_ = 'psdr.opg:OuterProductGradient'; m, M = v.int('m'), v.int('M', 3); X, f, c = v.arr('X', M, m), v.arr('f', M), v.arr('c', m); o = v.new(O_, standardize=std)
    sd, mu = v.arr('sd', m), v.arr('mu', m); v.assume_all([m], lambda j: s.lt(0, sd.at(j))); cs = (lambda j: s.mul(sd.at(j), c.at(j))) if std else c.at
    ext(v, {'numpy.mean': lambda a, axis=None: mean(a, axis), 'numpy.std': lambda a, axis=None: stdev(a, axis)})
    def mean(a, axis):
        v.ob('mean of the samples, by column', axis == 0); v.eq_arr('mean: of the samples', a, (M, m), lambda i, j: X.at(i, j)); return mu
    def stdev(a, axis): v.ob('standard deviation of the samples, by column', axis == 0); v.eq_arr('of the samples', a, (M, m), lambda i, j: X.at(i, j)); return sd
    Z = fresh_arr(v, 'G', M, m); v.assume_all([M, m], lambda i, j: s.eq(Z.at(i, j), cs(j))) # contract of local_linear_grads for affine data: the slope in standardized coordinates
    def llg(ip, loc):
        v.eq_arr('standardized samples', loc['X'], (M, m), (lambda i, j: s.div(s.sub(X.at(i, j), mu.at(j)), sd.at(j))) if std else lambda i, j: X.at(i, j)); v.eq_arr('values', loc['fX'], (M,), lambda i: f.at(i)); return Z
    v.contract(L_ + 'local_linear_grads', llg)
    U = fresh_arr(v, 'U', m, m); lam = v.real('lam'); v.assume(s.ne(lam, 0)); v.assume_all([m], lambda j: s.eq(U.at(j, 0), s.mul(lam, cs(j))))
    def asfit(ip, loc): v.ob('active subspace of the gradients', loc['grads'] is Z); ip.setattr(loc['self'], '_U', U); return None     # C16: the first column spans the gradients
    v.contract('psdr.subspace:ActiveSubspace.fit', asfit)
    Q, r = fresh_arr(v, 'Q', m, m), v.real('r00')
    def qr(B, mode='reduced'):
        v.assume_all([m], lambda j: s.eq(A.asarr(B).at(j, 0), s.mul(Q.at(j, 0), r))); return Q, Opaque('R')
    ext(v, {'numpy.linalg.qr': qr})
    sg = v.real('sg'); v.assume(Or(s.eq(sg, 1), s.eq(sg, -1))); W = fresh_arr(v, 'W', m, m)
    def fix(ip, loc): u = A.asarr(loc['U']); v.assume_all([m], lambda j: s.eq(W.at(j, 0), s.mul(sg, u.at(j, 0)))); return W      # C16: columns up to sign
    v.contract('psdr.subspace:SubspaceBasedDimensionReduction._fix_subspace_signs_grads', fix)
    v.call(o, 'fit', X, f); R = v.attr(o, 'U')
    if not v.shape('basis', R, m, m): return
    k = s.mul(sg, r) if std else 1
    v.forall('the true direction is a multiple of the first basis vector', [m], lambda j: s.eq(s.mul(k, R.at(j, 0)), s.mul(lam, c.at(j))))

@target('C22', 'psdr.opg:OuterProductGradient.fit')
def opg_standardized(v):
    """affine data, standardized: the first basis vector is parallel to the slope in the original coordinates"""
    do_opg(v, True)
@target('C22', 'psdr.opg:OuterProductGradient.fit')
def opg_plain(v):
    """affine data, not standardized"""
    do_opg(v, False)
