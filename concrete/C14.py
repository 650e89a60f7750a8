from core import *
import psdr, io, contextlib
from psdr import LipschitzMatrix, LipschitzConstant, DiagonalLipschitzMatrix, PartialLipschitzMatrix
from psdr import lipschitz_utils as LU
from psdr.lipschitz_approx import lipschitz_approximation_compatible_data, LipschitzApproximation

def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()): return f()
def data(T, mmax=4, nmax=8, gmax=3, need=False):
    r = T.rng; m = int(r.randint(1, mmax + 1)); N = int(r.randint(1, nmax)); sc = 10.0 ** r.uniform(-3, 3)
    X = r.randn(N, m) * 10.0 ** r.uniform(-1, 1); a = r.randn(m); B = r.randn(m, m); k = int(r.randint(0, 4))
    f = [lambda X: X.dot(a), lambda X: X.dot(a) ** 2 + X.dot(B[0]), lambda X: np.sin(X.dot(B)).sum(axis=1), lambda X: 0 * X[:, 0] + 3.0][k]
    gf = [lambda X: np.tile(a, (len(X), 1)), lambda X: 2 * np.outer(X.dot(a), a) + B[0], lambda X: np.cos(X.dot(B)).dot(B.T), lambda X: 0 * X][k]
    fX = sc * f(X); G = None
    if r.rand() < .25 and N > 1: X = np.vstack([X, X[:1]]); fX = np.hstack([fX, fX[:1]])
    if r.rand() < .5: G = sc * gf(X[:int(r.randint(1, gmax + 1))])
    use = r.rand() < .8 or G is None
    T.note(m=m, X=X if use else None, fX=fX if use else None, G=G)
    return m, (X if use else None), (fX if use else None), G, sc

def satisfied(T, l, m, X, fX, G, eps, what, tol=2e-4):
    H, L = np.asarray(l.H, float), np.asarray(l.L, float)
    T.ok(H.shape == (m, m) and L.shape == (m, m), what + ': shapes')
    T.ok(np.all(np.isfinite(H)) and np.all(np.isfinite(L)), what + ': finite')
    s = 0.
    if fX is not None: s = max(s, np.ptp(fX))
    if G is not None: s = max(s, np.linalg.norm(G, axis=1).max())
    s = s or 1.
    h = max(np.abs(H).max(), s * s)
    T.close(H, H.T, what + ': squared matrix symmetric', 1e-9, 1e-9 * h)
    T.ok(np.linalg.eigvalsh((H + H.T) / 2).min() >= -1e-7 * h, what + ': squared matrix positive semidefinite')
    T.close(L.T.dot(L), H, what + ': squared matrix is the square of the factor', 1e-6, 1e-7 * h)
    T.ok(np.linalg.eigvalsh((L + L.T) / 2).min() >= -1e-7 * np.sqrt(h) - 1e-12, what + ': factor positive semidefinite')
    if X is not None:
        for i in range(len(X)):
            for j in range(i):
                d = np.linalg.norm(L.dot(X[i] - X[j]))
                p = X[i] - X[j]
                T.ok(max(abs(fX[i] - fX[j]) - eps, 0) ** 2 <= d * d * (1 + tol) + tol / 10 * (s * s + max(h, s * s) * min(1, p.dot(p))), what + ': pair of samples within the Lipschitz distance', i=i, j=j, df=abs(fX[i] - fX[j]), d=d, eps=eps)
    if G is not None and eps == 0:
        for g in G: T.ok(np.linalg.eigvalsh(H - np.outer(g, g)).min() >= -tol * max(h, s * s), what + ': gradient dominated', g=g)
    return H, L, s

@case(40, funcs=['LipschitzMatrix.fit', '_build_lipschitz_matrix_cvxopt', '_build_lipschitz_matrix_param', '_build_lipschitz_matrix_cvxpy'])
def matrix(T):
    """the full matrix satisfies the data, for every solver method; rescaling the values rescales it; smallest trace no larger than the identity multiple"""
    r = T.rng; m, X, fX, G, sc = data(T); eps = 0.
    meth = str(r.choice(['cvxopt', 'cvxopt', 'param', 'cvxpy'])); T.note(method=meth)
    if X is not None and G is None and r.rand() < .4: eps = float(sc * r.choice([.1, 1., 100.]))
    l = LipschitzMatrix(method=meth, epsilon=eps if (eps or r.rand() < .3) else None)
    X0, f0 = (None, None) if X is None else (X.copy(), fX.copy())
    try: quiet(lambda: l.fit(X, fX, G))
    except Exception as e:
        if type(e).__name__ in ('SolverError', 'ArithmeticError', 'ZeroDivisionError'): raise Skip('solver')
        raise
    if X is not None: T.ok(np.all(X == X0) and np.all(fX == f0), 'data unmodified')
    H, L, s = satisfied(T, l, m, X, fX, G, eps, 'matrix')
    U = l.U; T.close(U.T.dot(U), np.eye(m), 'directions orthonormal', 1e-8, 1e-8); e = np.diag(U.T.dot(H).dot(U))
    T.close(U.T.dot(H).dot(U), np.diag(e), 'directions diagonalize', 1e-6, 1e-6 * max(np.abs(H).max(), 1e-300)); T.ok(np.all(np.diff(e) <= 1e-8 * max(1e-300, np.abs(e).max())), 'directions in decreasing order')
    c = LipschitzConstant(epsilon=eps or None); c.fit(X, fX, G)
    if eps == 0 or G is None: T.ok(np.trace(H) <= m * c._L ** 2 * (1 + 1e-3) + 2e-5 * s * s, 'trace no larger than that of the scalar solution', trace=np.trace(H), scalar=m * c._L ** 2)
    a = 10.0 ** r.uniform(-2, 2)
    l2 = LipschitzMatrix(method=meth, epsilon=None if not eps else a * eps); quiet(lambda: l2.fit(X, None if fX is None else a * fX + (0 if G is not None else 5 * a), None if G is None else a * G))
    T.close(np.trace(l2.H), a * a * np.trace(H), 'trace equivariant under rescaling', 1e-3, 2e-5 * a * a * s * s)

@case(40, funcs=['DiagonalLipschitzMatrix.fit', '_build_lipschitz_matrix_cvxopt'])
def diagonal(T):
    """diagonal structure, data satisfied, scores and directions are those of the last fit"""
    r = T.rng; m, X, fX, G, sc = data(T); eps = 0.
    if X is not None and G is None and r.rand() < .4: eps = float(sc * r.choice([.1, 1., 100.]))
    l = DiagonalLipschitzMatrix(epsilon=eps or None)
    if r.rand() < .3:
        l.fit(r.randn(4, m), r.randn(4)); l.U
    quiet(lambda: l.fit(X, fX, G)); H, L, s = satisfied(T, l, m, X, fX, G, eps, 'diagonal')
    T.ok(np.all(H == np.diag(np.diag(H))) and np.all(L == np.diag(np.diag(L))), 'diagonal')
    T.close(l.score, np.diag(L), 'score', 1e-12); T.close(l.U, np.eye(m)[:, np.argsort(-np.diag(L))], 'directions', 1e-12)
    a = 10.0 ** r.uniform(-2, 2); l2 = DiagonalLipschitzMatrix(epsilon=None if not eps else a * eps); quiet(lambda: l2.fit(X, None if fX is None else a * fX, None if G is None else a * G))
    T.close(np.trace(l2.H), a * a * np.trace(H), 'trace equivariant', 1e-3, 2e-5 * a * a * s * s)

@case(80, funcs=['LipschitzConstant.fit'])
def constant(T):
    """the scalar constant is the smallest one that satisfies the data"""
    r = T.rng; m, X, fX, G, sc = data(T); eps = 0.
    if X is not None and r.rand() < .4: eps = float(sc * r.choice([.1, 1., 100.])); T.note(eps=eps)
    l = LipschitzConstant(epsilon=eps if (eps or r.rand() < .3) else None); l.fit(X, fX, G)
    want = 0.
    if X is not None:
        for i in range(len(X)):
            for j in range(i):
                d = abs(fX[i] - fX[j]) - eps
                if d > 0: want = max(want, d / np.linalg.norm(X[i] - X[j]))
    if G is not None: want = max(want, np.linalg.norm(G, axis=1).max())
    T.close(l._L, want, 'smallest constant', 1e-9, 1e-12 * sc); T.close(l.L, want * np.eye(m), 'factor', 1e-9, 1e-12 * sc); T.close(l.H, want ** 2 * np.eye(m), 'squared', 1e-9, 1e-12 * sc ** 2); T.close(l.U, np.eye(m), 'directions')

@case(25, funcs=['PartialLipschitzMatrix.fit', 'PartialLipschitzMatrix._fixed_U'])
def partial(T):
    """H = U J U' + alpha (I - U U'), data satisfied"""
    r = T.rng; m, X, fX, G, sc = data(T, 3, 7)
    if X is None: raise Skip('gradients only')
    if len(X) < m + 2: X = np.vstack([X, 3 * r.randn(m + 2, m)]); fX = np.hstack([fX, sc * r.randn(m + 2)]); G = None
    rank = int(r.randint(1, m + 1)); eps = 0.
    if G is None and r.rand() < .3: eps = float(sc * r.choice([.1, 100.]))
    U0 = np.linalg.qr(r.randn(m, rank))[0]; T.note(rank=rank, eps=eps, U0=U0)
    l = PartialLipschitzMatrix(rank, epsilon=eps, verbose=False, maxiter=int(r.randint(1, 4)), U0=U0)
    try: quiet(lambda: l.fit(X, fX, G))
    except Exception as e:
        if type(e).__name__ in ('SolverError',) or 'search direction' in str(e): raise Skip('solver')
        raise
    H, L, s = satisfied(T, l, m, X, fX, G, eps, 'partial', 2e-3)
    U = l.U; T.ok(U.shape == (m, rank) and l.J.shape == (rank, rank), 'rank'); T.close(U.T.dot(U), np.eye(rank), 'orthonormal', 1e-7, 1e-7)
    T.close(H, U.dot(l.J).dot(U.T) + l.alpha * (np.eye(m) - U.dot(U.T)), 'structure', 1e-9, 1e-9 * s * s); T.close(l.J, np.diag(np.diag(l.J)), 'block diagonalized', 1e-9); T.ok(np.all(np.diff(np.diag(l.J)) <= 1e-12 * (1 + np.abs(l.J).max())), 'decreasing')
    if eps > np.ptp(fX): T.ok(np.trace(H) <= 1e-3 * s * s, 'nothing required beyond epsilon', H=H)

@case(40, funcs=['dist_eval_constraints', 'dist_grad_constraints', 'project_evals', 'project_grads', '_quad_form', '_vec_norm', '_preprocess_data'])
def utilities(T):
    """distances to the constraints and projections onto them"""
    r = T.rng; m, N = int(r.randint(1, 5)), int(r.randint(2, 7)); X = r.randn(N, m); fX = r.randn(N); B = r.randn(m, m); H = B.dot(B.T); G = r.randn(int(r.randint(1, 5)), m)
    d = LU.dist_eval_constraints(H, X, fX); I, J = np.triu_indices(N, k=1)
    for k, (i, j) in enumerate(zip(I, J)):
        p = X[i] - X[j]; T.close(d[k], (p.dot(H).dot(p) - (fX[i] - fX[j]) ** 2) / p.dot(p), 'distance to a sample constraint', 1e-8, 1e-8)
    dg = LU.dist_grad_constraints(H, G); T.close(dg, [np.linalg.eigvalsh(H - np.outer(g, g))[0] for g in G], 'distance to a gradient constraint', 1e-6, 1e-6 * np.abs(H).max())
    H0 = H.copy() * (.1 if r.rand() < .5 else 1); Hc = H0.copy(); P = LU.project_evals(H0, X, fX)
    T.ok(np.all(H0 == Hc), 'argument unmodified'); T.ok(LU.dist_eval_constraints(P, X, fX).min() >= -1e-9 * (1 + np.abs(P).max()), 'projected onto the samples'); T.ok(np.linalg.eigvalsh(P - Hc).min() >= -1e-9 * (1 + np.abs(P).max()), 'only added to')
    T.close(LU._quad_form(H, X), [x.dot(H).dot(x) for x in X], 'quadratic form', 1e-9, 1e-9); T.close(LU._vec_norm(X), (X ** 2).sum(axis=1), 'squared norm', 1e-9)
    A, f, g = LU._preprocess_data(X=X.tolist(), fX=list(fX)); T.close(A, X, 'X'); T.close(f, fX, 'fX'); T.ok(g.shape == (0, m), 'no gradients')
    A, f, g = LU._preprocess_data(grads=G.tolist()); T.ok(A.shape == (0, m) and f.shape == (0,), 'no samples'); T.close(g, G, 'gradients')

@case(25, funcs=['lipschitz_approximation_compatible_data'])
def compatible(T):
    """compatible data obey the matrix; data that already do are returned"""
    r = T.rng; m, N = int(r.randint(1, 4)), int(r.randint(2, 8)); X = r.randn(N, m); L = r.randn(m, m); ok = r.rand() < .5
    a = r.randn(m); a = L.T.dot(a / np.linalg.norm(a)) * .9; fX = X.dot(a) if ok else r.randn(N) * 5; nm = [1, 2, np.inf][int(r.randint(3))]
    y = lipschitz_approximation_compatible_data(L, X, fX, norm=nm); T.note(ok=ok, norm=nm)
    for i in range(N):
        for j in range(i): T.ok(abs(y[i] - y[j]) <= np.linalg.norm(L.dot(X[i] - X[j])) + 1e-5, 'compatible')
    if ok: T.close(y, fX, 'compatible data are returned', 1e-5, 1e-5)
    c = np.full(N, np.mean(fX)); T.ok(np.linalg.norm(y - fX, nm) <= np.linalg.norm(c - fX, nm) * (1 + 1e-6) + 1e-5, 'no worse than a constant')
