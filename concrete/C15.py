from core import *
import psdr, io, contextlib
from psdr import LipschitzMatrix, LipschitzConstant, DiagonalLipschitzMatrix, BoxDomain
from psdr.lipschitz import LowerBound, UpperBound
def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): return f()

def mk(T, mmax=4):
    r = T.rng; m, N = int(r.randint(1, mmax + 1)), int(r.randint(1, 9)); k = int(r.randint(0, 3))
    B = r.randn(m, m) * 10.0 ** r.uniform(-1, 1); X = r.randn(N, m); fX = r.randn(N) * 10.0 ** r.uniform(-1, 1)
    eps = None if r.rand() < .6 else float(r.choice([0., .1, 2.])); T.note(kind=k, X=X, fX=fX, B=B, eps=eps)
    if k == 0: l = LipschitzMatrix(L=B, epsilon=eps)
    elif k == 1: B = np.diag(np.abs(np.diag(B))); l = DiagonalLipschitzMatrix(L=B, epsilon=eps)
    else: l = LipschitzConstant(L=abs(B[0, 0]), epsilon=eps); l._dimension = m; B = abs(B[0, 0]) * np.eye(m)
    return l, B, X, fX, eps or 0., m, N

@case(100, funcs=['LipschitzMatrix.uncertainty'])
def uncertainty(T):
    """largest lower and smallest upper cone at every test point"""
    l, B, X, fX, eps, m, N = mk(T); r = T.rng; Xt = np.vstack([r.randn(int(r.randint(1, 6)), m), X[:1]]); X0, f0, t0 = X.copy(), fX.copy(), Xt.copy()
    f = fX.reshape(-1, 1) if r.rand() < .2 else fX
    lb, ub = l.uncertainty(X, f, Xt)
    D = np.array([[np.linalg.norm(B.dot(x - y)) for y in X] for x in Xt])
    T.close(lb, (fX - D).max(axis=1) - eps, 'lower bound', 1e-8, 1e-8); T.close(ub, (fX + D).min(axis=1) + eps, 'upper bound', 1e-8, 1e-8)
    T.ok(np.all(X == X0) and np.all(fX == f0) and np.all(Xt == t0), 'arguments unmodified')
    l1, u1 = l.uncertainty(X, fX, Xt[0]); T.close([np.ravel(l1)[0], np.ravel(u1)[0]], [lb[0], ub[0]], 'single point', 1e-12, 1e-12)
    p = r.permutation(N); l2, u2 = l.uncertainty(X[p], fX[p], Xt); T.close(l2, lb, 'order of the data', 1e-12, 1e-12); T.close(u2, ub, 'order of the data', 1e-12, 1e-12)

@case(50, funcs=['LipschitzMatrix.uncertainty'])
def encloses(T):
    """consistent functions are enclosed; the data are met; lower <= upper"""
    l, B, X, fX, eps, m, N = mk(T); r = T.rng
    a = r.randn(m); a = B.T.dot(a / np.linalg.norm(a)); c = r.randn(3, m); h = r.randn(3)
    f = [lambda Y: Y.dot(a), lambda Y: np.min([h[k] + np.linalg.norm((Y - c[k]).dot(B.T), axis=1) for k in range(3)], axis=0), lambda Y: np.abs(Y.dot(a) - .3)][int(r.randint(3))]
    Xt = np.vstack([r.randn(6, m) * 2, X]); g = lambda Y: f(Y) + eps / 2 * np.sin(1e3 * Y.sum(axis=1))
    y = g(X); lb, ub = l.uncertainty(X, y, Xt); v = g(Xt); T.ok(np.all(lb <= v + 1e-9) and np.all(v <= ub + 1e-9), 'consistent function enclosed')
    T.ok(np.all(lb <= ub + 1e-9), 'lower bound below upper bound'); T.ok(np.all(np.abs(lb[6:] - y) <= eps + 1e-9) and np.all(np.abs(ub[6:] - y) <= eps + 1e-9), 'data met up to epsilon')

@case(50, funcs=['LowerBound.eval', 'LowerBound.grad', 'UpperBound.eval', 'UpperBound.grad'])
def cones(T):
    """the cones and their gradients"""
    l, B, X, fX, eps, m, N = mk(T); r = T.rng; x = r.randn(m)
    D = np.array([np.linalg.norm(B.dot(x - y)) for y in X]); J = np.array([-B.T.dot(B.dot(x - y)) / max(d, 1e-300) for y, d in zip(X, D)])
    for C, s in ((LowerBound, 1), (UpperBound, -1)):
        c = C(B, X, fX); T.close(c(x), s * fX - D, 'cone', 1e-8, 1e-8)
        if D.min() > 1e-3: T.close(c.grad(x), J, 'cone gradient', 1e-6, 1e-6)
        T.ok(np.linalg.norm(c.grad(X[0])[0]) <= np.linalg.norm(B, 2) * (1 + 1e-9), 'slope at the tip within the Lipschitz matrix')

@case(6, limit=120, funcs=['LipschitzMatrix.uncertainty_domain'])
def domain(T):
    """the interval over a domain is attained by the pointwise bounds inside the domain"""
    r = T.rng; m = int(r.randint(1, 3)); N = int(r.randint(3, 7)); lo = -r.uniform(.5, 2, m); hi = r.uniform(.5, 2, m); dom = BoxDomain(lo, hi)
    X = dom.sample(N); B = r.randn(m, m) + 3 * np.eye(m); fX = np.sin(X.sum(axis=1)) * 2; eps = None if r.rand() < .5 else .25; l = LipschitzMatrix(L=B, epsilon=eps); T.note(X=X, fX=fX, B=B, eps=eps, lo=lo, hi=hi)
    import psdr.lipschitz as LI
    try: lb, ub = quiet(lambda: l.uncertainty_domain(X, fX, dom, Nsamp=10))
    except Exception as e: raise Skip('geometry: %s' % type(e).__name__)
    Z = np.vstack([dom.sample_grid(400 if m == 1 else 60), X]); a, b = l.uncertainty(X, fX, Z); s = (np.linalg.norm(B, 2) * np.linalg.norm(hi - lo)) * (1. / 400 if m == 1 else 1. / 50)
    T.ok(lb >= a.min() - s - 1e-6 and ub <= b.max() + s + 1e-6, 'not wider than the pointwise bounds', lb=lb, ub=ub, a=a.min(), b=b.max())
    T.ok(lb <= ub + 1e-6, 'ordered')
    if m == 1: T.ok(lb <= a.min() + .05 * (b.max() - a.min()) and ub >= b.max() - .05 * (b.max() - a.min()), 'close to the pointwise bounds', lb=lb, ub=ub, a=a.min(), b=b.max())
