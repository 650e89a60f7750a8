from core import *
import psdr, itertools
from psdr.basis import *
from psdr import basis as B, vandermonde as VA
from numpy.polynomial import Polynomial, Legendre, Chebyshev, Hermite, Laguerre
UNI = {'Monomial': Polynomial, 'Legendre': Legendre, 'Chebyshev': Chebyshev, 'Hermite': Hermite, 'Laguerre': Laguerre}

@case(40, funcs=['index_set', '_full_index_set'])
def indices(T):
    """every multi-index of total degree at most n exactly once, by increasing degree"""
    r = T.rng; n, d = int(r.randint(0, 7)), int(r.randint(1, 5)); T.note(n=n, d=d)
    I = B.index_set(n, d)
    T.ok(I.dtype.kind == 'i', 'integers')
    want = {t for t in itertools.product(range(n + 1), repeat=d) if sum(t) <= n}
    got = [tuple(int(x) for x in i) for i in I]
    T.ok(len(got) == len(set(got)), 'no multi-index twice'); T.ok(set(got) == want, 'all multi-indices of total degree <= n')
    T.ok(all(sum(a) <= sum(b) for a, b in zip(got, got[1:])), 'increasing degree'); T.ok(sum(got[0]) == 0, 'constant first')

def mk(T):
    r = T.rng; nm = str(r.choice(sorted(UNI))); deg = int(r.randint(0, 5)); dim = int(r.randint(1, 4)); scaled = bool(r.rand() < .7)
    X = r.randn(deg * 4 + 12, dim) * r.uniform(.3, 3, dim) + r.randn(dim)
    if r.rand() < .1: X = np.round(X * 3).astype(int); X[0] -= 1; X[1] += 1
    b = getattr(B, nm + 'TensorBasis')(deg, **(dict(X=X) if scaled else dict(dim=dim)))
    T.note(basis=nm, deg=deg, dim=dim, scaled=scaled)
    if not scaled: sh, sc = np.zeros(dim), np.ones(dim)
    elif nm == 'Hermite': sh, sc = X.mean(0), 1 / (X.std(0) * np.sqrt(2))
    else: lo, hi = X.min(0), X.max(0); sh, sc = (lo + hi) / 2., 2. / (hi - lo)
    return b, nm, deg, dim, sh, sc, X

@case(60, funcs=['PolynomialTensorBasis.V', 'PolynomialTensorBasis.VC', 'PolynomialTensorBasis.DV', 'PolynomialTensorBasis.DDV', 'PolynomialTensorBasis._build_Dmat', 'HermiteTensorBasis._scale'])
def tensor(T):
    """V, VC, DV, DDV from independent univariate polynomials"""
    r = T.rng
    b, nm, deg, dim, sh, sc, X = mk(T)
    Y = X[:6] if r.rand() < .5 else sh + r.randn(6, dim) / sc
    Y0 = Y.copy(); Z = (Y - sh) * sc
    P = [UNI[nm].basis(k) for k in range(deg + 1)]
    def val(a, der): return np.prod([P[ak].deriv(dk)(Z[:, k]) * sc[k] ** dk if dk else P[ak](Z[:, k]) for k, (ak, dk) in enumerate(zip(a, der))], axis=0)
    e = np.eye(dim, dtype=int); idx = [tuple(i) for i in b.indices]
    T.ok(len(b) == len(idx), 'length')
    V = np.array([val(a, [0] * dim) for a in idx]).T
    s = 1e-9 * (1 + np.abs(V).max())
    T.close(b.V(Y), V, 'V', 1e-8, s)
    D = np.array([[val(a, e[k]) for k in range(dim)] for a in idx]).transpose(2, 0, 1)
    T.close(b.DV(Y), D, 'DV', 1e-8, 1e-9 * (1 + np.abs(D).max()))
    H = np.array([[[val(a, e[k] + e[l]) for l in range(dim)] for k in range(dim)] for a in idx]).transpose(3, 0, 1, 2)
    T.close(b.DDV(Y), H, 'DDV', 1e-8, 1e-9 * (1 + np.abs(H).max()))
    c = r.randn(len(idx)); c[r.rand(len(c)) < .3] = 0
    T.close(b.VC(Y, c), V.dot(c), 'VC', 1e-8, s * 10); C = r.randn(len(idx), 2); C[0, 0] = 0; T.close(b.VC(Y, C), V.dot(C), 'VC matrix', 1e-8, s * 10)
    T.ok(np.all(Y == Y0), 'points unmodified')
    if b.X is not None: T.close(b.V(), b.V(X), 'V()', 1e-12, 1e-12)

@case(15, funcs=['PolynomialTensorBasis.roots', 'HermiteTensorBasis.roots'])
def roots(T):
    """one-dimensional roots are zeros of the expansion"""
    r = T.rng; nm = str(r.choice(sorted(UNI))); deg = int(r.randint(1, 5)); X = r.randn(20, 1) * 2 + 1
    b = getattr(B, nm + 'TensorBasis')(deg, X=X); c = r.randn(deg + 1); T.note(basis=nm, deg=deg)
    z = b.roots(c); T.ok(len(z) == deg, 'number of roots')
    z = z[np.abs(np.imag(z)) < 1e-12].real
    for t in z: T.ok(abs(b.VC(np.array([[t]]), c)[0]) <= 1e-5 * (1 + np.abs(b.DV(np.array([[t]]))[0, :, 0]).dot(np.abs(c))), 'root %g' % t)

@case(25, funcs=['ArnoldiPolynomialBasis.arnoldi', 'ArnoldiPolynomialBasis.arnoldi_X', 'ArnoldiPolynomialBasis.V', 'ArnoldiPolynomialBasis.DV'])
def arnoldi(T):
    """orthonormal on the samples, spans the polynomials, evaluates the same polynomials elsewhere, derivatives exact"""
    r = T.rng; deg, dim = int(r.randint(0, 5)), int(r.randint(1, 4)); idx = B.index_set(deg, dim)
    X = r.uniform(-1, 1, (3 * len(idx) + 5, dim)) * r.uniform(.5, 2, dim) + r.randn(dim) * .3; T.note(deg=deg, dim=dim)
    b = ArnoldiPolynomialBasis(deg, X)
    Q = b.V(); T.close(Q.T.dot(Q), np.eye(len(idx)), 'orthonormal', 1e-8, 1e-8); T.close(b.V(X), Q, 'V(X)', 1e-12, 1e-12)
    T.ok(len(b) == len(idx), 'length')
    mono = lambda Y, e: np.array([np.prod([(np.prod(np.arange(a - d + 1, a + 1)) if d else 1.) * (Y[:, k] ** (a - d) if a >= d else 0 * Y[:, k]) for k, (a, d) in enumerate(zip(al, e))], axis=0) for al in idx]).T
    M = mono(X, [0] * dim); C = np.linalg.lstsq(M, Q, rcond=None)[0]
    T.close(M.dot(C), Q, 'basis functions are polynomials of the degree', 1e-6, 1e-7)
    for k, al in enumerate(idx): T.ok(np.all(np.abs(C[k + 1:, k]) < 1e-5 * (1 + np.abs(C[:, k]).max())), 'k-th function only uses the first k monomials')
    Y = r.uniform(-1, 1, (5, dim)) if r.rand() < .5 else np.round(r.uniform(-2, 2, (5, dim))).astype(int)
    W = mono(np.asarray(Y, float), [0] * dim).dot(C); sc = 1e-5 * (1 + np.abs(W).max())
    T.close(b.V(Y), W, 'V at other points', 1e-5, sc)
    for Z in (Y, X):
        D = b.DV(Z)
        for k in range(dim):
            W = mono(np.asarray(Z, float), [int(q == k) for q in range(dim)]).dot(C)
            T.close(D[:, :, k], W, 'DV', 1e-4, 1e-5 * (1 + np.abs(W).max()))

@case(15, funcs=['vandermonde_arnoldi', 'polyfitA', 'polyvalA'])
def vandermonde(T):
    """Vandermonde with Arnoldi: scaled orthonormal, and fit/evaluation reproduce polynomials"""
    r = T.rng; deg, dim = int(r.randint(0, 4)), int(r.randint(1, 4)); idx = B.index_set(deg, dim)
    X = r.uniform(-1, 1, (3 * len(idx) + 5, dim)); T.note(deg=deg, dim=dim)
    Q, H = VA.vandermonde_arnoldi(X, deg)
    T.close(Q.T.dot(Q) / len(X), np.eye(len(idx)), 'orthonormal columns', 1e-8, 1e-8)
    c = r.randn(len(idx)); f = lambda Y: sum(ci * np.prod(Y ** a, axis=1) for ci, a in zip(c, idx))
    d, H = VA.polyfitA(X, f(X), deg); Y = r.uniform(-1, 1, (6, dim))
    T.close(VA.polyvalA(d, H, Y), f(Y), 'fit reproduces the polynomial', 1e-6, 1e-6); T.close(VA.polyvalA(d, H, X), f(X), 'at the samples', 1e-6, 1e-6)
