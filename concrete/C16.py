from core import *
import psdr, tempfile, os, shutil
from psdr import ActiveSubspace
from psdr.subspace import SubspaceBasedDimensionReduction
from psdr.coord import CoordinateBasedDimensionReduction
from psdr.pgf import PGF
from psdr.initialization import initialize_subspace

def grads_of(T, mmax=6):
    r = T.rng; m = int(r.randint(1, mmax + 1)); N = int(r.randint(1, 12)); sc = 10.0 ** r.uniform(-4, 4)
    k = int(r.randint(0, 4))
    if k == 0: G = r.randn(N, m)
    elif k == 1: G = np.outer(r.randn(N), r.randn(m))          # rank one
    elif k == 2: G = r.randn(N, m).dot(np.diag(10.0 ** -np.arange(m)))
    else: G = r.randint(-2, 3, size=(N, m)).astype(float)
    G = sc * G
    w = None
    if r.rand() < .5:
        w = r.rand(N) * 10.0 ** r.uniform(-2, 2)
        if r.rand() < .3: w[int(r.randint(0, N))] = 0.
    T.note(G=G, w=w); return m, N, G, w

def check(T, U, s, C, G, w, what, oriented=True):
    m = G.shape[1]; ww = np.ones(len(G)) / len(G) if w is None else w
    Ce = (G.T * ww).dot(G); h = max(np.abs(Ce).max(), 1e-300)
    T.ok(np.shape(U) == (m, m), what + ': shape of the directions', got=np.shape(U))
    T.close(U.T.dot(U), np.eye(m), what + ': directions orthonormal', 1e-8, 1e-9)
    D = U.T.dot(Ce).dot(U)
    T.ok(np.abs(D - np.diag(np.diag(D))).max() <= 1e-9 * h, what + ': directions diagonalise the weighted outer products')
    T.ok(np.all(np.diff(np.diag(D)) <= 1e-9 * h), what + ': directions ordered by decreasing influence')
    if s is not None:
        T.ok(np.shape(s) == (m,), what + ': one singular value per direction')
        T.close(np.asarray(s) ** 2, np.diag(D), what + ': squared singular values are the influences', 1e-7, 1e-9 * h)
    if C is not None: T.close(C, Ce, what + ': reported matrix is the weighted sum of outer products', 1e-8, 1e-9 * h)
    if oriented:
        sl = np.mean(G.dot(U), axis=0)
        T.ok(np.all(sl >= -1e-9 * max(np.abs(G).max(), 1e-300)), what + ': average slopes nonnegative', slopes=sl)

@case(60, funcs=['ActiveSubspace.fit'])
def fit(T):
    """directions orthonormal, diagonalise the weighted outer products, ordered, oriented"""
    m, N, G, w = grads_of(T); a = ActiveSubspace(); G0, w0 = G.copy(), None if w is None else w.copy()
    if T.rng.rand() < .5: a.fit(T.rng.randn(3, m))        # a previous fit leaves no trace
    a.fit(G, w) if w is not None else a.fit(G)
    check(T, a.U, a.singvals, a.C, G, w, 'active subspace'); T.ok(len(a) == m, 'dimension')
    T.close(G, G0, 'gradients untouched', 0, 0)
    if w is not None: T.close(w, w0, 'weights untouched', 0, 0)
    U = a.U; U[:] = 7; T.ok(np.all(np.abs(a.U) <= 1 + 1e-9), 'directions returned as a copy')
    b = ActiveSubspace(); b.fit(G.tolist(), None if w is None else w.tolist()); T.close(b.C, a.C, 'lists give the same result', 1e-12, 0)

@case(20, funcs=['ActiveSubspace.fit_function'])
def fit_function(T):
    """automatic fit uses the quadrature rule of the domain"""
    r = T.rng; m = int(r.randint(1, 4)); lb = r.randn(m); ub = lb + r.rand(m) + .1; a = r.randn(m); B = r.randn(m, m)
    dom = psdr.BoxDomain(lb, ub)
    f = psdr.Function(lambda x: float(np.sin(a.dot(x)) + x.dot(B).dot(x)), dom, grads=lambda x: np.cos(a.dot(x)) * a + (B + B.T).dot(x))
    n = int(r.randint(4, 30)); T.note(lb=lb, ub=ub, a=a, B=B, n=n)
    s = ActiveSubspace(); np.random.seed(T.seed % 2 ** 31); s.fit_function(f, n); np.random.seed(T.seed % 2 ** 31)
    X, w = f.domain.quadrature_rule(n); check(T, s.U, s.singvals, s.C, np.array([f.grad(x) for x in X]), w, 'automatic fit')

@case(60, funcs=['SubspaceBasedDimensionReduction._fix_subspace_signs'])
def signs(T):
    """orienting flips signs only; average slopes nonnegative afterwards"""
    m, N, G, w = grads_of(T, 4); r = T.rng; n = int(r.randint(1, m + 1)); U = np.linalg.qr(r.randn(m, m))[0][:, :n]
    X = r.randn(N, m); fX = r.randn(N)
    if r.rand() < .4: X = np.round(X); U = np.eye(m)[:, :n]
    if r.rand() < .3: fX = np.round(fX)
    S = SubspaceBasedDimensionReduction(); T.note(U=U, X=X, fX=fX)
    for mode in ('grads', 'samples', 'both'):
        U0 = U.copy()
        V = S._fix_subspace_signs(U, X if mode != 'grads' else None, fX if mode != 'grads' else None, G if mode != 'samples' else None)
        T.close(U, U0, 'input untouched', 0, 0)
        T.ok(V.shape == U.shape, 'shape kept'); sg = np.sum(U * V, axis=0)
        T.close(np.abs(sg), np.ones(n), 'columns changed by signs only', 1e-9, 1e-9); T.close(V, U * np.round(sg), 'columns changed by signs only', 1e-9, 1e-9)
        for k in range(n):
            if mode == 'samples':
                t = 0.; tot = 1.
                for i in range(N):
                    for j in range(i + 1, N):
                        d = V[:, k].dot(X[i] - X[j])
                        if abs(d) > 0: t += (fX[i] - fX[j]) / d; tot += abs((fX[i] - fX[j]) / d)
                T.ok(t >= -1e-9 * tot, 'average slope of the samples nonnegative', k=k, slope=t)
            else: T.ok(np.mean(G.dot(V[:, k])) >= -1e-9 * np.abs(G).max(), 'average gradient slope nonnegative', mode=mode)

@case(20, funcs=['SubspaceBasedDimensionReduction.shadow_plot'])
def shadow(T):
    """shadow plot data are the inner products with the leading directions"""
    m, N, G, w = grads_of(T, 5); r = T.rng; a = ActiveSubspace(); a.fit(G); X = r.randn(N, m); fX = r.randn(N); T.note(X=X, fX=fX)
    d = tempfile.mkdtemp(prefix='c16')
    try:
        for dim in (1, 2):
            if dim > m: continue
            for U in (None, np.linalg.qr(r.randn(m, m))[0], r.randn(m)):
                if U is not None and U.ndim == 1 and dim == 2: continue
                fn = os.path.join(d, 's.dat'); a.shadow_plot(X, fX, dim=dim, U=U, ax=None, pgfname=fn)
                p = PGF(); p.read(fn); V = a.U if U is None else U.reshape(m, -1)
                if dim == 1:
                    T.ok(p.keys() == ['y', 'fX'], 'columns'); T.close(p['y'], X.dot(V[:, 0]), 'projected samples', 1e-9, 1e-9); T.close(p['fX'], fX, 'values', 1e-12, 1e-12)
                else:
                    T.ok(p.keys() == ['y1', 'y2', 'fX'], 'columns'); T.close(p['y1'], X.dot(V[:, 0]), 'first coordinate', 1e-9, 1e-9); T.close(p['y2'], X.dot(V[:, 1]), 'second coordinate', 1e-9, 1e-9); T.close(p['fX'], fX, 'values', 1e-12, 1e-12)
    finally: shutil.rmtree(d)

@case(20, funcs=['CoordinateBasedDimensionReduction.U'])
def coordinates(T):
    """coordinate directions are unit vectors ordered by decreasing score"""
    r = T.rng; m = int(r.randint(1, 7)); c = CoordinateBasedDimensionReduction(); c._score = r.rand(m) if r.rand() < .7 else np.round(r.rand(m)); T.note(score=c._score)
    U = c.U; T.ok(U.shape == (m, m), 'shape'); T.close(U.T.dot(U), np.eye(m), 'orthonormal', 1e-12, 1e-12); T.ok(np.all((U == 0) | (U == 1)), 'unit vectors')
    T.ok(np.all(np.diff(U.T.dot(c.score)) <= 0), 'decreasing score')

@case(15, funcs=['initialize_subspace'])
def initial(T):
    """the initial subspace of given gradients spans them"""
    m, N, G, w = grads_of(T, 4)
    U = initialize_subspace(grads=G); k = min(m, N)
    T.ok(U.shape == (m, k), 'shape', got=U.shape); T.close(U.T.dot(U), np.eye(k), 'orthonormal', 1e-9, 1e-9)
    T.close(U.dot(U.T.dot(G.T)), G.T, 'gradients spanned', 1e-8, 1e-9 * np.abs(G).max())
