from core import *
import sys, psdr; ll = sys.modules["psdr.local_linear"]
from psdr import local_linear, local_linear_grads, perplexity_bandwidth

def affine(T):
    r = T.rng; m = int(r.randint(1, 5)); M = int(r.randint(m + 4, 30)); X = r.randn(M, m) * 10.0 ** r.uniform(-1, 1); a = r.randn(m); b = r.randn(); return X, X.dot(a) + b, a, b, m, M

@case(80, funcs=['local_linear', 'local_linear_grads'])
def reproduces(T):
    """affine data: intercept and slope at each query point, any bandwidth or perplexity"""
    r = T.rng; X, y, a, b, m, M = affine(T); sc = np.abs(X).max()
    k = int(r.randint(0, 4)); kw = {}
    if k == 1: kw['perplexity'] = r.uniform(2 + m, M - 1) if M - 1 > 2 + m else None
    if k == 2: kw['bandwidth'] = 10.0 ** r.uniform(-3, -.5) / sc ** 2
    if k == 3: kw['bandwidth'] = 'xia'; X = X / sc; y = X.dot(a) + b
    n = None
    if r.rand() < .6: n = int(r.randint(1, 2 * M)); kw['Xt'] = X[r.randint(0, M, size=n)] * .7
    T.note(X=X, y=y, **kw); X0, y0 = X.copy(), y.copy(); A = local_linear(X, y, **kw); n = n or M
    T.close(X, X0, 'input untouched', 0, 0); T.close(y, y0, 'input untouched', 0, 0); T.ok(A.shape == (n, m + 1), 'one row per query point', got=A.shape, want=(n, m + 1)); S = 1 + np.abs(a).max() * (1 + np.abs(X).max()) + abs(b)
    T.close(A[:, 0], b * np.ones(n), 'intercept', 1e-5, 1e-5 * S); T.close(A[:, 1:], np.tile(a, (n, 1)), 'slopes', 1e-5, 1e-5 * S / min(1, np.abs(X).max()))
    T.close(local_linear_grads(X, y, **kw), A[:, 1:], 'gradients are the slopes', 1e-9, 1e-9)
    T.close(local_linear(X, y.reshape(-1, 1), **kw), A, 'column values', 1e-9, 1e-9)

@case(40, funcs=['local_linear'])
def weighted(T):
    """general data: each row solves the weighted least squares problem with Gaussian weights"""
    r = T.rng; X, y, a, b, m, M = affine(T); X = X / np.abs(X).max(); y = np.sin(X.dot(a)) + X[:, 0] ** 2 + b; beta = 10.0 ** r.uniform(-1, .5); Xt = r.uniform(-1, 1, size=(4, m)); T.note(X=X, y=y, bandwidth=beta, Xt=Xt)
    A = local_linear(X, y, bandwidth=beta, Xt=Xt); Y = np.hstack([np.ones((M, 1)), X])
    for i, x in enumerate(Xt):
        W = np.exp(-.5 * beta * np.sum((X - x) ** 2, axis=1)); g = Y.T.dot(W * (Y.dot(A[i]) - y)); T.close(g, np.zeros(m + 1), 'normal equations of the weighted problem', 0, 1e-7 * (1 + np.abs(y).max()) * M)

@case(60, funcs=['perplexity_bandwidth', 'log_entropy', '_compute_p1'])
def perplexity(T):
    """perplexity bandwidths give the requested effective number of neighbours"""
    r = T.rng; M = int(r.randint(6, 60)); m = int(r.randint(1, 5)); X = r.randn(M, m) * 10.0 ** r.uniform(-1, 1); d = np.sum((X - (X[0] if r.rand() < .5 else r.randn(m) * .1)) ** 2, axis=1); p = r.uniform(2, min(M - 1, 2 + np.sqrt(M))); T.note(d=d, p=p); d0 = d.copy()
    beta = perplexity_bandwidth(d, p); T.close(d, d0, 'input untouched', 0, 0); T.ok(np.isfinite(beta) and beta > 0, 'positive bandwidth'); q = np.exp(-beta * (d - d.min())); q /= q.sum(); H = np.exp(-np.sum(np.where(q > 0, q * np.log(np.maximum(q, 1e-300)), 0)))
    T.close(H, p, 'effective number of neighbours', 1e-5, 1e-5)
    T.close(np.exp(ll.log_entropy(beta, d)), H, 'entropy', 1e-6, 1e-6)

@case(40, funcs=['OuterProductGradient'])
def opg(T):
    """outer product of gradients recovers the direction of affine data, whatever the scaling of the inputs"""
    r = T.rng; m = int(r.randint(2, 5)); M = int(r.randint(m + 6, 30)); s = 10.0 ** r.uniform(-2, 2, size=m); X = r.randn(M, m) * s + r.randn(m) * s; a = r.randn(m) / s ** r.choice([0, 1]); y = X.dot(a) + r.randn(); std = bool(r.rand() < .7)
    if not std: X = X / s; y = X.dot(a)
    kw = {} if r.rand() < .5 else {'bandwidth': .1 if std else .01}
    T.note(X=X, y=y, a=a, std=std, **kw); o = psdr.OuterProductGradient(standardize=std, **kw); X0 = X.copy(); o.fit(X, y); T.close(X, X0, 'input untouched', 0, 0); U = o.U
    T.ok(U.shape == (m, m), 'shape'); T.close(U.T.dot(U), np.eye(m), 'orthonormal', 1e-8, 1e-8); T.close(U[:, 0], a / np.linalg.norm(a), 'true direction, pointing uphill', 1e-4, 1e-4)
