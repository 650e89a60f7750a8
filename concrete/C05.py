from core import *
import psdr
from domgen import *

def tens(T, kinds=None, bounded=False):
    return make(T, 'tensor', bounded=bounded, kinds=kinds or ['box', 'linineq', 'linquad', 'point', 'uniform', 'normal', 'normal_trunc', 'hull', 'tensor', 'lognormal_trunc'])

@case(80, funcs=['TensorProductDomain.*'])
def blocks(T):
    """dimension, names, bounds and constraints are those of the factors, block by block"""
    d, s = tens(T)
    ds = [p[0] for p in s.parts]
    T.ok(len(d) == sum(len(q) for q in ds), 'dimension'); T.ok(list(d.names) == [n for q in ds for n in q.names], 'names')
    T.close(d.lb, np.concatenate([q.lb for q in ds]), 'lb', 0, 0); T.close(d.ub, np.concatenate([q.ub for q in ds]), 'ub', 0, 0)
    x = T.rng.randn(s.m)
    off = np.cumsum([0] + [len(q) for q in ds]); xb = [x[off[i]:off[i + 1]] for i in range(len(ds))]
    for an, bn in (('A', 'b'), ('A_eq', 'b_eq')):
        T.close(getattr(d, an).dot(x) - getattr(d, bn), np.concatenate([getattr(q, an).dot(y) - getattr(q, bn) for q, y in zip(ds, xb)]), an, 1e-10, 1e-10)
    L = [(np.linalg.norm(l.dot(x - y)), r) for l, y, r in zip(d.Ls, d.ys, d.rhos)]
    M = [(np.linalg.norm(l.dot(z - y)), r) for q, z in zip(ds, xb) for l, y, r in zip(q.Ls, q.ys, q.rhos)]
    T.close(np.array(L).reshape(-1, 2), np.array(M).reshape(-1, 2), 'quadratic constraints', 1e-9, 1e-9)
    X = near(T, s, 10)
    got = d.isinside(X)
    want = np.all([q.isinside(X[:, off[i]:off[i + 1]]) for i, q in enumerate(ds)], axis=0)
    T.ok(np.array_equal(got, want), 'isinside is the conjunction of the factors')
    for tol in (1e-3, .3, 0.):
        if any(q.__class__.__name__ in ('PointDomain',) for q in ds): break
        got = d.isinside(X, tol=tol); want = np.all([q.isinside(X[:, off[i]:off[i + 1]], tol=tol) for i, q in enumerate(ds)], axis=0)
        T.ok(np.array_equal(got, want), 'isinside with tolerance %g is the conjunction of the factors' % tol)
    # one block outside at a time
    for i, q in enumerate(ds):
        x = s.x0.copy(); x[off[i]:off[i + 1]] += 1e4
        T.ok(bool(d.isinside(x)) == bool(q.isinside(x[off[i]:off[i + 1]])) or s.points, 'block %d decides' % i)

@case(40)
def extent(T):
    """extent along a direction is the smallest of the factors'"""
    d, s = tens(T, ['box', 'linineq', 'linquad', 'uniform', 'normal_trunc', 'hull', 'tensor'])
    ds = [p[0] for p in s.parts]; off = np.cumsum([0] + [len(q) for q in ds])
    for _ in range(3):
        p = T.rng.randn(s.m)
        if len(ds) > 1 and T.rng.rand() < .5: i = T.rng.randint(len(ds)); p[off[i]:off[i + 1]] = 0
        e = d.extent(s.x0, p); w = min(q.extent(s.x0[off[i]:off[i + 1]], p[off[i]:off[i + 1]]) for i, q in enumerate(ds))
        T.close(e, w, 'extent', 1e-6, 1e-8)

@case(40)
def sampling(T):
    """samples are inside blockwise"""
    d, s = tens(T, ['box', 'uniform', 'normal', 'normal_trunc', 'point', 'lognormal', 'tensor'], bounded=True)
    ds = [p[0] for p in s.parts]; off = np.cumsum([0] + [len(q) for q in ds])
    for n in (1, 2, 7):
        X = d.sample(n)
        T.shape(X, (s.m,) if n == 1 else (n, s.m), 'sample(%d)' % n)
        X = X.reshape(n, s.m)
        for i, q in enumerate(ds): T.ok(np.all(q.isinside(X[:, off[i]:off[i + 1]])), 'sample block %d inside its factor' % i)
        if n > 2 and not s.points and np.all(s.ub > s.lb): T.ok(np.min(np.std(X, axis=0)) > 0, 'samples differ')

@case(30)
def nested(T):
    """(a*b)*c, a*(b*c), [a,b,c] are the same set"""
    K = ['box', 'linineq', 'linquad', 'point', 'uniform', 'hull', 'normal_trunc']
    ps = [make(T, K[T.rng.randint(len(K))], int(T.rng.choice([1, 2]))) for _ in range(3)]
    a, b, c = [p[0] for p in ps]
    s = Spec(sum(p[1].m for p in ps)); embed(s, [p[1] for p in ps])
    TP = psdr.TensorProductDomain
    d1, d2, d3 = (a * b) * c, a * (b * c), TP([a, b, c])
    d4 = TP([TP([a]), TP([TP([b]), c])])
    X = near(T, s, 8)
    for d in (d1, d2, d4):
        T.ok(len(d.domains) == 3 and all(p is q for p, q in zip(d.domains, (a, b, c))), 'factors in order')
        T.ok(list(d.names) == list(a.names) + list(b.names) + list(c.names), 'names')
        T.ok(np.array_equal(d.isinside(X), d3.isinside(X)), 'same set'); T.close(d.lb, d3.lb, 'lb', 0, 0); T.close(d.ub, d3.ub, 'ub', 0, 0)
        T.close(d.normalize(X), d3.normalize(X), 'normalize', 1e-12, 1e-12)

@case(12)
def optimization(T):
    """corner and closest point of a product are those of the factors"""
    d, s = tens(T, ['box', 'linineq', 'uniform', 'normal_trunc'])
    if not (s.quads or (np.all(np.isfinite(s.lb)) and np.all(np.isfinite(s.ub)))): raise Skip('')
    ds = [p[0] for p in s.parts]; off = np.cumsum([0] + [len(q) for q in ds])
    if any(not np.all(np.isfinite(q.norm_lb)) for q in ds): raise Skip('unbounded')
    p = T.rng.randn(s.m)
    v = sum(p[off[i]:off[i + 1]].dot(q.corner(p[off[i]:off[i + 1]])) for i, q in enumerate(ds))
    x = d.corner(p)
    T.close(p.dot(x), v, 'corner value', 1e-4, 1e-4); T.ok(d.isinside(x, tol=1e-4), 'corner inside')
    z = s.x0 + 5 * T.rng.randn(s.m)
    y = d.closest_point(z); w = np.concatenate([q.closest_point(z[off[i]:off[i + 1]]) for i, q in enumerate(ds)])
    T.close(y, w, 'closest point', 1e-3, 1e-3)
