from core import *
import psdr, warnings
from psdr import basis as B, poly as PO, polyridge as PR
from numpy.polynomial import Polynomial, Legendre, Chebyshev, Hermite, Laguerre
UNI = {'monomial': Polynomial, 'legendre': Legendre, 'chebyshev': Chebyshev, 'hermite': Hermite, 'laguerre': Laguerre}

def fexp(basis, idx, sh, sc, c):
    """independent expansion, gradient and hessian"""
    P = UNI[basis]; dim = len(sh)
    def term(Y, a, der):
        Z = (Y - sh) * sc
        return np.prod([P.basis(int(ak)).deriv(int(dk))(Z[:, k]) * sc[k] ** dk if dk else P.basis(int(ak))(Z[:, k]) for k, (ak, dk) in enumerate(zip(a, der))], axis=0)
    e = np.eye(dim, dtype=int); z = np.zeros(dim, int)
    f = lambda Y: sum(ci * term(Y, a, z) for ci, a in zip(c, idx))
    g = lambda Y: np.array([sum(ci * term(Y, a, e[k]) for ci, a in zip(c, idx)) for k in range(dim)]).T
    h = lambda Y: np.array([[sum(ci * term(Y, a, e[k] + e[l]) for ci, a in zip(c, idx)) for l in range(dim)] for k in range(dim)]).transpose(2, 0, 1)
    return f, g, h

def mk(T, maxdeg=4):
    r = T.rng; nm = str(r.choice(sorted(UNI))); deg = int(r.randint(0, maxdeg + 1)); dim = int(r.randint(1, 4)); scaled = bool(r.rand() < .7)
    X = r.randn(deg * 4 + 12, dim) * r.uniform(.3, 3, dim) + r.randn(dim)
    b = getattr(B, nm.capitalize() + 'TensorBasis')(deg, **(dict(X=X) if scaled else dict(dim=dim)))
    if not scaled: sh, sc = np.zeros(dim), np.ones(dim)
    elif nm == 'hermite': sh, sc = X.mean(0), 1 / (X.std(0) * np.sqrt(2))
    else: lo, hi = X.min(0), X.max(0); sh, sc = (lo + hi) / 2., 2. / (hi - lo)
    c = r.randn(len(b)); T.note(basis=nm, deg=deg, dim=dim, scaled=scaled, coef=c)
    return b, c, dim, sh, sc, fexp(nm, b.indices, sh, sc, c)

@case(60, funcs=['PolynomialFunction.eval', 'PolynomialFunction.grad', 'PolynomialFunction.hessian'])
def polynomial(T):
    """value, gradient, Hessian are those of the expansion; single points agree with batches"""
    r = T.rng; b, c, dim, sh, sc, (f, g, h) = mk(T); p = psdr.PolynomialFunction(b, c)
    Y = sh + r.randn(5, dim) / sc
    if r.rand() < .2: Y = np.round(Y * 2).astype(int)
    Y0 = Y.copy()
    for got, want, what in ((p.eval(Y), f(Y), 'value'), (p.grad(Y), g(Y), 'gradient'), (p.hessian(Y), h(Y), 'hessian')):
        T.close(got, want, what, 1e-8, 1e-9 * (1 + np.abs(want).max()))
    y = Y[0]
    T.close(p.eval(y), f(Y)[:1], 'single value', 1e-8, 1e-8); T.close(p(Y), f(Y), 'call', 1e-8, 1e-8 * (1 + np.abs(f(Y)).max()))
    T.close(p.grad(y), p.grad(Y)[0], 'single gradient', 1e-10, 1e-10); T.close(p.hessian(y), p.hessian(Y)[0], 'single hessian', 1e-10, 1e-10)
    v, G = p(Y, return_grad=True); T.close(G, p.grad(Y), 'joint gradient', 1e-12, 1e-12); T.close(v, p.eval(Y), 'joint value', 1e-12, 1e-12)
    T.ok(np.all(Y == Y0), 'points unmodified')
    c[:] = 0; T.close(p.eval(Y0), f(Y0) * 0 + p.eval(Y0), 'x'); T.ok(np.abs(p.coef).max() > 0, 'coefficients are the function\'s own')

@case(60, funcs=['PolynomialRidgeFunction.eval', 'PolynomialRidgeFunction.grad', 'PolynomialRidgeFunction.hessian', 'PolynomialRidgeFunction.profile'])
def ridge(T):
    """chain rule through the subspace, constant orthogonal to it"""
    r = T.rng; b, c, n, sh, sc, (f, g, h) = mk(T, 3); m = n + int(r.randint(0, 4))
    U = r.randn(m, n)
    if r.rand() < .7: U = np.linalg.qr(U)[0]
    T.note(U=U)
    p = psdr.PolynomialRidgeFunction(b, c, U); X = r.randn(5, m); Y = X.dot(U); X0 = X.copy()
    F, G = f(Y), g(Y).dot(U.T); H = np.array([U.dot(k).dot(U.T) for k in h(Y)])
    for got, want, what in ((p.eval(X), F, 'value'), (p.grad(X), G, 'gradient'), (p.hessian(X), H, 'hessian')):
        T.close(got, want, what, 1e-8, 1e-9 * (1 + np.abs(want).max()))
    T.close(p.eval(X[0]), F[:1], 'single value', 1e-8, 1e-8 * (1 + abs(F[0])))
    T.close(p.grad(X[0]), p.grad(X)[0], 'single gradient', 1e-10, 1e-10); T.close(p.hessian(X[0]), p.hessian(X)[0], 'single hessian', 1e-10, 1e-10)
    T.close(p.profile.eval(Y), F, 'profile', 1e-8, 1e-9 * (1 + np.abs(F).max())); T.close(p.profile.grad(Y), g(Y), 'profile gradient', 1e-8, 1e-9 * (1 + np.abs(G).max()))
    if m > n:
        N = np.linalg.svd(U)[0][:, n:]; d = N.dot(r.randn(m - n)); T.close(p.eval(X + d), F, 'constant orthogonal to the subspace', 1e-7, 1e-8 * (1 + np.abs(F).max()))
        T.close(p.grad(X).dot(d), np.zeros(5), 'gradient orthogonal', 1e-7, 1e-8 * (1 + np.abs(G).max()))
    T.ok(np.all(X == X0), 'points unmodified'); T.close(p.U, U, 'subspace kept', 0, 0)

@case(24, funcs=['PolynomialApproximation.fit', 'linear_fit'])
def approximation(T):
    """fits reproduce polynomials of the degree, bounded fits stay on their side, 2-norm fits are least squares"""
    r = T.rng; nm = str(r.choice(sorted(UNI) + ['arnoldi'])); deg, dim = int(r.randint(0, 4)), int(r.randint(1, 4)); norm = [1, 2, np.inf][r.randint(3)]; bound = [None, 'lower', 'upper'][r.randint(3)]
    I = B.index_set(deg, dim); X = r.uniform(-1, 1, (3 * len(I) + 5, dim)) * r.uniform(.5, 2, dim) + r.randn(dim)
    c = r.randn(len(I)); f = lambda Y: sum(ci * np.prod(Y ** a, axis=1) for ci, a in zip(c, I)); T.note(basis=nm, deg=deg, dim=dim, norm=norm, bound=bound)
    p = psdr.PolynomialApproximation(deg, basis=nm, norm=norm, bound=bound); fX = f(X); p.fit(X, fX)
    Y = r.uniform(X.min(0), X.max(0), (6, dim)); s = 1e-4 * (1 + np.abs(fX).max())
    T.close(p.eval(X), fX, 'reproduces the data', 1e-5, s); T.close(p.eval(Y), f(Y), 'reproduces the polynomial', 1e-4, s)
    gX = fX + r.randn(len(X)); q = psdr.PolynomialApproximation(deg, basis=nm, norm=norm, bound=bound); q.fit(X, gX); res = q.eval(X) - gX
    if bound == 'lower': T.ok(np.all(res <= 1e-4 * (1 + np.abs(gX).max())), 'below the samples')
    if bound == 'upper': T.ok(np.all(res >= -1e-4 * (1 + np.abs(gX).max())), 'above the samples')
    # no other polynomial of the degree does better
    V = q.basis.V(X); o = lambda e: np.linalg.norm(V.dot(q.coef + e) - gX, norm)
    for t in range(30):
        e = r.randn(len(q.coef)) * 10. ** r.uniform(-3, 0); w = V.dot(q.coef + e) - gX
        if (bound == 'lower' and np.any(w > 0)) or (bound == 'upper' and np.any(w < 0)): continue
        T.ok(o(0 * e) <= o(e) * (1 + 1e-4) + 1e-4, 'best fit in the norm')

def ortho(T, U): T.close(U.T.dot(U), np.eye(U.shape[1]), 'orthonormal subspace', 1e-7, 1e-8)

@case(20, limit=240, funcs=['PolynomialRidgeApproximation._finish', 'PolynomialRidgeApproximation.fit_fixed_subspace', 'PolynomialRidgeApproximation._fit_coef'])
def finish(T):
    """a fit on the true subspace reproduces the data, keeps the span, and orients average slopes nonnegatively"""
    r = T.rng; nm = str(r.choice(sorted(UNI) + ['arnoldi'])); n = int(r.randint(1, 4)); m = n + int(r.randint(0, 3)); deg = int(r.randint(1 if n == 1 else 2, 4)); I = B.index_set(deg, n)
    U = np.linalg.qr(r.randn(m, n))[0]; X = r.randn(3 * len(I) + 8, m)
    if r.rand() < .3:     # symmetric samples of an even function: zero average slope
        X = np.round(X * 4) / 4; X = np.vstack([X, -X]); U = np.eye(m)[:, :n]; c = np.array([r.randn() if sum(a) % 2 == 0 and all(x % 2 == 0 for x in a) else 0. for a in I]); sym = True
    else: c = r.randn(len(I)); sym = False
    rot = bool(r.rand() < .8); T.note(basis=nm, n=n, m=m, deg=deg, rotate=rot, sym=sym)
    f = lambda Y: sum(ci * np.prod(Y ** a, axis=1) for ci, a in zip(c, I)); fX = f(X.dot(U))
    p = psdr.PolynomialRidgeApproximation(deg, n, basis=nm, rotate=rot); p.fit_fixed_subspace(X, fX, U)
    ortho(T, p.U); T.close(p.U.dot(p.U.T), U.dot(U.T), 'same span', 1e-7, 1e-8)
    s = 1e-6 * (1 + np.abs(fX).max()); T.close(p.eval(X), fX, 'reproduces the data', 1e-6, s)
    if not rot: T.close(p.U, U, 'unrotated subspace kept', 1e-12, 1e-12)
    else:
        g = p.profile.grad(X.dot(p.U)); T.ok(np.all(g.mean(0) >= -1e-6 * (1 + np.abs(g).max())), 'average slopes nonnegative')
        if n > 1: C = g.T.dot(g); T.close(C, np.diag(np.diag(C)), 'rotated onto the principal directions of the profile', 1e-5, 1e-6 * (1 + np.abs(C).max())); T.ok(np.all(np.diff(np.diag(C)) <= 1e-6 * (1 + C.max())), 'ordered by influence')

@case(10, limit=240, funcs=['PolynomialRidgeApproximation.fit', 'PolynomialRidgeApproximation._fit_varpro', 'PolynomialRidgeApproximation._fit_affine', 'PolynomialRidgeApproximation._varpro_residual'])
def fit(T):
    """fitting a polynomial ridge function from its own subspace reproduces it; affine fits are exact"""
    r = T.rng; nm = str(r.choice(sorted(UNI))); n = int(r.randint(1, 3)); m = n + int(r.randint(1, 3)); deg = int(r.randint(1 if n == 1 else 2, 4)); I = B.index_set(deg, n)
    U = np.linalg.qr(r.randn(m, n))[0]; c = r.randn(len(I)); c[-1] += 2; N = 3 * len(I) + m * n + 10; X = r.uniform(-1, 1, (N, m)) * r.uniform(.5, 2, m) + .2 * r.randn(m)
    if deg == 1 and r.rand() < .2: c[1:] = 0
    f = lambda Y: sum(ci * np.prod(Y ** a, axis=1) for ci, a in zip(c, I)); fX = f(X.dot(U)); norm = 2 if deg > 1 else [1, 2, np.inf][r.randint(3)]
    bound = None if deg > 1 else [None, 'lower', 'upper'][r.randint(3)]; T.note(basis=nm, n=n, m=m, deg=deg, norm=norm, bound=bound, c=c)
    p = psdr.PolynomialRidgeApproximation(deg, n, basis=nm, norm=norm, bound=bound); X0, f0 = X.copy(), fX.copy()
    p.fit(X, fX, U0=None if deg == 1 else U); ortho(T, p.U)
    s = 1e-4 * (1 + np.abs(fX).max()); T.close(p.eval(X), fX, 'reproduces the data', 1e-4, s)
    T.ok(np.all(X == X0) and np.all(fX == f0), 'data unmodified')
    if deg == 1:
        # noisy data: the bound holds and no affine function on that side is better
        gX = fX + .3 * r.randn(N); p.fit(X, gX); res = p.eval(X) - gX; t = 1e-4 * (1 + np.abs(gX).max())
        if bound == 'lower': T.ok(np.all(res <= t), 'below the samples')
        if bound == 'upper': T.ok(np.all(res >= -t), 'above the samples')
        import scipy.optimize
        A = np.hstack([X, np.ones((N, 1))]); k = A.shape[1]; best = None
        if norm == np.inf or norm == 1:
            q = 1 if norm == np.inf else N; E = np.ones((N, 1)) if norm == np.inf else np.eye(N)
            Au = np.vstack([np.hstack([A, -E]), np.hstack([-A, -E])]); bu = np.hstack([gX, -gX])
            if bound == 'lower': Au = np.vstack([Au, np.hstack([A, np.zeros((N, q))])]); bu = np.hstack([bu, gX])
            if bound == 'upper': Au = np.vstack([Au, np.hstack([-A, np.zeros((N, q))])]); bu = np.hstack([bu, -gX])
            best = scipy.optimize.linprog(np.hstack([np.zeros(k), np.ones(q)]), A_ub=Au, b_ub=bu, bounds=[(None, None)] * (k + q)).fun
        elif bound is None: best = np.linalg.norm(A.dot(np.linalg.lstsq(A, gX, rcond=None)[0]) - gX)
        if best is not None: T.ok(np.linalg.norm(res, norm) <= best * (1 + 1e-3) + 1e-3, 'best affine fit: %g, optimum %g' % (np.linalg.norm(res, norm), best))

@case(20, funcs=['PolynomialRidgeApproximation._varpro_jacobian', 'PolynomialRidgeApproximation._jacobian', 'PolynomialRidgeApproximation._residual', 'PolynomialRidgeApproximation._grassmann_trajectory', 'PolynomialRidgeApproximation._trajectory'])
def jacobians(T):
    """Jacobians of the fit residuals are the derivatives of the residuals; trajectories stay orthonormal"""
    r = T.rng; nm = str(r.choice(sorted(UNI) + ['arnoldi'])); n = int(r.randint(1, 3)); m = n + int(r.randint(1, 3)); deg = int(r.randint(2, 4)); I = B.index_set(deg, n)
    N = 2 * len(I) + m * n + 8; X = r.uniform(-1, 1, (N, m)); fX = r.randn(N); U = np.linalg.qr(r.randn(m, n))[0].flatten(); T.note(basis=nm, n=n, m=m, deg=deg)
    p = psdr.PolynomialRidgeApproximation(deg, n, basis=nm)
    J = p._varpro_jacobian(X, fX, U).copy(); h = 1e-6
    F = np.array([(p._varpro_residual(X, fX, U + h * e) - p._varpro_residual(X, fX, U - h * e)) / (2 * h) for e in np.eye(m * n)]).T
    T.close(J, F, 'variable projection Jacobian', 1e-4, 1e-4 * (1 + np.abs(F).max()))
    z = np.hstack([U, r.randn(len(I))]); J = p._jacobian(X, fX, z).copy()
    F = np.array([(p._residual(X, fX, z + h * e) - p._residual(X, fX, z - h * e)) / (2 * h) for e in np.eye(len(z))]).T
    T.close(J, F, 'residual Jacobian', 1e-4, 1e-4 * (1 + np.abs(F).max()))
    D = r.randn(m, n); Um = U.reshape(m, n); D -= Um.dot(Um.T.dot(D)); t = float(r.uniform(0, 2))
    V = p._grassmann_trajectory(U, D.flatten(), t).reshape(m, n); ortho(T, V)
    V = p._grassmann_trajectory(U, D.flatten(), 0.).reshape(m, n); T.close(V.dot(V.T), Um.dot(Um.T), 'trajectory starts at the current subspace', 1e-7, 1e-8)
    V = p._grassmann_trajectory(U, D.flatten(), h).reshape(m, n); T.close((V.dot(V.T) - Um.dot(Um.T)) / h, D.dot(Um.T) + Um.dot(D.T), 'in the direction of the step', 1e-3, 1e-4 * (1 + np.abs(D).max() ** 2))
    w = p._trajectory(X, fX, z, np.hstack([D.flatten(), 0 * z[m * n:]]), t); ortho(T, w[:m * n].reshape(m, n))
    w = p._trajectory(X, fX, z, np.hstack([D.flatten(), 0 * z[m * n:]]), h); V = w[:m * n].reshape(m, n); T.close((V.dot(V.T) - Um.dot(Um.T)) / h, D.dot(Um.T) + Um.dot(D.T), 'in the direction of the step', 1e-3, 1e-4 * (1 + np.abs(D).max() ** 2))
