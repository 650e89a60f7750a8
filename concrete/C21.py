from core import *
import psdr, scipy.linalg
from psdr import GaussianProcess

def data(T, M=None):
    r = T.rng; m = int(r.randint(1, 4)); M = M or int(r.randint(m + 3, 16)); X = r.uniform(-1, 1, size=(M, m)); a = r.randn(m); y = np.sin(2 * X.dot(a)) + X.dot(r.randn(m)) + r.randn(); return X, y, m, M
def make(T, m, nugget=None):
    r = T.rng; s = ['const', 'diag', 'tril', 'scalar_mult'][int(r.randint(0, 4))]; deg = [None, 0, 1][int(r.randint(0, 3))]
    kw = {'Lfixed': np.tril(r.randn(m, m)) + 2 * np.eye(m)} if s == 'scalar_mult' else {}
    gp = GaussianProcess(structure=s, degree=deg, nugget=nugget, **kw); n = {'const': 1, 'scalar_mult': 1, 'diag': m, 'tril': m * (m + 1) // 2}[s]
    return gp, s, deg, n
def Lof(gp, s, ell, m):
    if s == 'const': return np.exp(ell[0]) * np.eye(m)
    if s == 'scalar_mult': return np.exp(ell[0]) * gp.Lfixed
    if s == 'diag': return np.diag(np.exp(ell))
    A = np.zeros((m, m)); A[np.tril_indices(m)] = ell; return scipy.linalg.expm(A)
def kern(L, X, Y): return np.array([[np.exp(-.5 * np.sum((L.dot(x - y)) ** 2)) for y in Y] for x in X])

@case(40, funcs=['_make_L', '_log_marginal_likelihood', '_obj', '_grad'])
def likelihood(T):
    """objective is the negative log marginal likelihood and its gradient the derivative of it"""
    r = T.rng; X, y, m, M = data(T); nug = 10.0 ** r.uniform(-4, -1); gp, s, deg, n = make(T, m, nug); gp._fit_init(X, y); ell = r.uniform(.2, 1.2, size=n) if s != 'tril' else r.uniform(-.5, 1, size=n); T.note(s=s, deg=deg, ell=ell, X=X, y=y, nugget=nug)
    L = Lof(gp, s, ell, m); T.close(gp._make_L(ell), L, 'length scale matrix', 1e-10, 1e-10)
    def obj(ell):
        K = kern(Lof(gp, s, ell, m), X, X) + nug * np.eye(M); V = gp.V; Ki = np.linalg.inv(K); P = Ki
        if V.shape[1]: B = V.T.dot(Ki); P = Ki - B.T.dot(np.linalg.solve(B.dot(V), B))
        return .5 * y.dot(P).dot(y) + .5 * np.linalg.slogdet(K)[1]
    o = obj(ell); T.close(gp._obj(ell), o, 'objective', 1e-6, 1e-6 * (1 + abs(o)))
    g = gp._grad(ell); T.ok(g.shape == (n,), 'gradient shape'); h = 1e-5; fd = np.array([(obj(ell + h * e) - obj(ell - h * e)) / (2 * h) for e in np.eye(n)]); sc = 1 + abs(o) + np.abs(fd).max()
    T.close(g, fd, 'gradient of the objective', 1e-4, 1e-4 * sc)
    o2, g2 = gp._log_marginal_likelihood(ell, return_obj=True, return_grad=True); T.close(o2, gp._obj(ell), 'joint objective', 1e-12, 1e-12); T.close(g2, g, 'joint gradient', 1e-12, 1e-12)

@case(25, limit=100, funcs=['fit', 'eval', '_fit', '_fit_init'])
def interpolation(T):
    """fitted model interpolates; predictions are kernel sums; variances nonnegative and zero at the data"""
    r = T.rng; X, y, m, M = data(T); gp, s, deg, n = make(T, m); T.note(s=s, deg=deg, X=X, y=y); X0, y0 = X.copy(), y.copy()
    with np.errstate(all='ignore'): gp.fit(X, y)
    T.close(X, X0, 'inputs untouched', 0, 0); T.close(y, y0, 'inputs untouched', 0, 0)
    if not np.all(np.isfinite(gp._ell)) or np.abs(gp._ell).max() > 3: raise Skip
    K = kern(gp.L, X, X)
    if np.linalg.cond(K) > 1e10: raise Skip
    T.close(gp.L, Lof(gp, s, np.atleast_1d(gp._ell), m), 'fitted matrix', 1e-10, 1e-10)
    f, c = gp.eval(X, return_cov=True); T.close(f, y, 'interpolates its data', 1e-5, 1e-5 * (1 + np.abs(y).max())); T.close(c, np.zeros(M), 'no variance at the data', 0, 1e-4); T.ok(np.all(c >= 0), 'nonnegative variance')
    Z = r.uniform(-1.5, 1.5, size=(7, m)); f, c = gp.eval(Z, return_cov=True); Kz = kern(gp.L, Z, X); want = Kz.dot(gp.alpha)
    if deg is not None: want = want + gp.basis.V(Z).dot(gp.beta); T.close(gp.V.T.dot(gp.alpha), np.zeros(gp.V.shape[1]), 'weights orthogonal to the polynomials', 0, 1e-5 * (1 + np.abs(gp.alpha).max()))
    T.ok(f.shape == (7,) and c.shape == (7,), 'shapes'); sc = 1 + np.abs(gp.alpha).max(); T.close(f, want, 'prediction', 1e-8, 1e-8 * sc); T.close(gp.eval(Z), f, 'same prediction without variance', 0, 0)
    T.ok(np.all(c >= 0) and np.all(c <= 1 + 1e-8), 'variance between zero and the prior variance'); T.close(c, np.maximum(0, 1 - np.sum(Kz * np.linalg.solve(K, Kz.T).T, axis=1)), 'posterior variance', 1e-4, 1e-4)
    T.close(gp(Z[:1]), f[:1], 'row by row', 1e-9, 1e-9 * sc)
