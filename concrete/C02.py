from core import *
import psdr
from domgen import *

def ranges(s):
    """coordinate-wise extreme values of the set where known in closed form"""
    lb, ub = s.lb.copy(), s.ub.copy()
    return lb, ub

@case(140, funcs=['psdr.domains.*.normalize', 'psdr.domains.*.unnormalize', '_normalize_der', '_unnormalize_der'])
def roundtrip(T):
    """normalize / unnormalize are mutually inverse affine maps whose derivative matrices are the reported ones"""
    d, s = make(T, kinds=['box', 'linineq', 'linquad', 'hull', 'point', 'uniform', 'normal_trunc', 'normal', 'lognormal', 'lognormal_trunc', 'tensor', 'unbounded'])
    X = near(T, s, 6); Z = T.rng.uniform(-1.5, 1.5, (6, s.m))
    T.note(X=X)
    X0 = X.copy()
    Y = d.normalize(X); T.shape(Y, X.shape, 'normalize')
    T.close(X, X0, 'input unchanged', 0, 0)
    sc = 1 + np.abs(X).max()
    T.close(d.unnormalize(Y), X, 'unnormalize(normalize(X))', 1e-8, 1e-9 * sc)
    T.close(d.normalize(d.unnormalize(Z)), Z, 'normalize(unnormalize(Z))', 1e-7, 1e-7)
    for i in (0, 1):
        T.close(d.normalize(X[i]), Y[i], '1-d normalize', 1e-12, 1e-12); T.close(d.unnormalize(Z[i]), d.unnormalize(Z)[i], '1-d unnormalize', 1e-12, 1e-12)
    T.close(d.normalize(list(X[0])), Y[0], 'list input', 1e-12, 1e-12)
    D, Di = d._normalize_der(), d._unnormalize_der()
    T.shape(D, (s.m, s.m), 'normalize_der'); T.shape(Di, (s.m, s.m), 'unnormalize_der')
    T.close((Y[1] - Y[0]), D.dot(X[1] - X[0]), 'normalize is affine with derivative _normalize_der', 1e-7, 1e-7 * (1 + np.abs(Y).max()))
    U = d.unnormalize(Z)
    T.close(U[1] - U[0], Di.dot(Z[1] - Z[0]), 'unnormalize is affine with derivative _unnormalize_der', 1e-7, 1e-8 * (1 + np.abs(U).max()))
    T.close(D.dot(Di), np.eye(s.m), 'derivative matrices are inverse', 1e-9, 1e-9)
    T.ok(np.all(np.diag(D) > 0), 'orientation kept')

def expect(d, s, T, lo, hi):
    for i in range(s.m):
        l, h = lo[i], hi[i]
        x = s.x0.copy()
        if np.isfinite(l) and np.isfinite(h) and h - l > 1e-6:
            for v, w in ((l, -1.), (h, 1.), ((l + h) / 2, 0.)):
                x[i] = v; T.close(d.normalize(x)[i], w, 'coordinate %d: %g (of [%g, %g]) maps to %g' % (i, v, l, h, w), 1e-4, 1e-4)
        elif not (np.isfinite(l) and np.isfinite(h)):
            for v in (-2., .7): x[i] = v; T.close(d.normalize(x)[i], v - (s.mean[i] if s.kind == 'normal' else 0.), 'unbounded coordinate %d keeps its scale' % i, 1e-12, 1e-12)

@case(70)
def bounds_to_unit(T):
    """finite ranges map onto [-1, 1]; coordinates without a finite range keep their scale (a normal variable is centered on its mean)"""
    d, s = make(T, kinds=['box', 'uniform', 'lognormal', 'lognormal_trunc', 'hull', 'normal', 'unbounded', 'normal_trunc', 'linineq', 'linquad'])
    if s.kind == 'hull':
        if s.m: P = s.hulls[0][1]; return expect(d, s, T, P.min(0), P.max(0))
    if s.kind == 'normal_trunc':
        w = s.quads[0][2] * np.sqrt(np.diag(s.cov)); return expect(d, s, T, s.mean - w, s.mean + w)
    if s.kind in ('linineq', 'linquad'):
        if not (np.all(np.isfinite(s.lb)) and np.all(np.isfinite(s.ub))): raise Skip('corner-dependent')
    expect(d, s, T, s.lb, s.ub)

@case(30)
def implied_bounds(T):
    """a coordinate without explicit bounds but bounded by the other constraints is scaled by its true range"""
    m = int(T.rng.choice([1, 2, 3]))
    c = T.rng.randn(m) * 3; w = T.rng.uniform(.5, 4, m)
    kind = T.rng.choice(['ineq', 'quad'])
    if kind == 'ineq':
        d = psdr.LinIneqDomain(A=np.vstack([np.diag(1 / w), -np.diag(1 / w)]), b=np.r_[1 + c / w, 1 - c / w])
    else:
        d = psdr.LinQuadDomain(Ls=[np.diag(1 / w)], ys=[c], rhos=[1.])
    T.note(kind=kind, c=c, w=w)
    s = Spec(m); s.x0 = c
    expect(d, s, T, c - w, c + w)

@case(25)
def tensor_blocks(T):
    """normalization of a tensor product is the factors' normalization, block by block"""
    d, s = make(T, 'tensor')
    X = near(T, s, 4); Y = d.normalize(X); Z = d.unnormalize(X)
    o = 0
    for p, q in s.parts:
        J = slice(o, o + q.m); o += q.m
        T.close(Y[:, J], p.normalize(X[:, J]), 'block', 1e-12, 1e-12); T.close(Z[:, J], p.unnormalize(X[:, J]), 'block', 1e-12, 1e-12)
