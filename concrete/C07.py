from core import *
import psdr, itertools
from domgen import *
SK = ['box', 'linineq', 'linquad', 'point', 'uniform', 'normal', 'normal_trunc', 'lognormal', 'lognormal_trunc']

def near_inside(T, d, s, X, what, tol=2e-5):
    s.points = []                     # also kept as equal bounds: interpolated points carry rounding
    for x in np.atleast_2d(X): T.ok(s.slack(x) <= tol * (1 + np.max(np.abs(x))), what + ': %r outside by %g' % (x, s.slack(x)))

def proj(s, p):
    """projection of p onto the directions keeping equalities and fixed coordinates"""
    E = np.vstack([s.Ae, np.eye(s.m)[s.lb == s.ub]])
    if len(E): p = p - np.linalg.pinv(E).dot(E.dot(p)); p[s.lb == s.ub] = 0
    return p

@case(90, funcs=['EuclideanDomain.sample', 'EuclideanDomain._hit_and_run', '*._sample'])
def samples(T):
    """sample(n): inside the domain, n rows, flat for one draw, empty for n <= 0"""
    r = T.rng
    kind = r.choice(SK + ['tensor'])
    d, s = make(T, kind, bounded=True, kinds=None if kind != 'tensor' else ['box', 'uniform', 'normal', 'normal_trunc', 'point', 'lognormal', 'tensor', 'linineq'], m=None if kind != 'linquad' else int(r.choice([1, 2])))
    for n in (0, -1, 1, 2, 3 if kind in ('linquad', 'linineq') else 9):
        X = d.sample(n)
        T.shape(X, (0, s.m) if n <= 0 else (s.m,) if n == 1 else (n, s.m), 'sample(%d)' % n)
        if n > 0: T.ok(np.all(d.isinside(X)), 'sample(%d) inside by the domain\'s own test' % n); near_inside(T, d, s, X, 'sample(%d)' % n)
    X = np.array(X)
    if not s.points and np.all(s.ub - s.lb > 1e-3) and kind != 'tensor' and len(X) > 2: T.ok(np.max(np.std(X, axis=0)) > 0, 'samples differ')

@case(8, limit=240)
def samples_hull(T):
    """samples of a convex hull are inside it (also restricted by further constraints)"""
    r = T.rng
    if r.rand() < .4:
        m = int(r.choice([1, 2, 3])); P = r.randn(2, m); s = Spec(m); s.hulls = [(slice(0, m), P)]; s.x0 = P.mean(0); d = psdr.ConvexHullDomain(P.copy()); T.note(P=P)
    elif r.rand() < .4:
        m = int(r.choice([1, 2, 3])); P = r.randn(1, m); s = Spec(m); s.hulls = [(slice(0, m), P)]; s.x0 = P[0]; d = psdr.ConvexHullDomain(P.copy()); T.note(P=P)
    else: d, s = make(T, 'hull', int(r.choice([1, 2, 3])))
    for n in (1, 3):
        X = d.sample(n); T.shape(X, (s.m,) if n == 1 else (n, s.m), 'sample(%d)' % n)
        near_inside(T, d, s, X, 'hull sample', 1e-4)

@case(8)
def coverage(T):
    """box sampling is uniform over the whole box (means, spread and extremes), hit and run reaches all sides"""
    m = 2
    lb = T.rng.randn(m) * 3; ub = lb + T.rng.uniform(.5, 20, m)
    d = psdr.BoxDomain(lb, ub); X = d.sample(4000); U = (X - lb) / (ub - lb)
    T.ok(np.all(np.abs(U.mean(0) - .5) < .04) and np.all(np.abs(U.std(0) - 12 ** -.5) < .03) and np.all(U.min(0) < .02) and np.all(U.max(0) > .98), 'box samples are not uniform: mean %s std %s' % (U.mean(0), U.std(0)))
    T.ok(abs(np.corrcoef(U.T)[0, 1]) < .1, 'coordinates are independent')

@case(4, limit=240)
def coverage_hr(T):
    """hit-and-run moves over the whole domain"""
    d, s = make(T, 'linineq', 2, bounded=True, eq=False)
    X = d.sample(60)
    w = [np.max(X.dot(u)) - np.min(X.dot(u)) for u in np.eye(2)]
    W = [d.corner(u).dot(u) - d.corner(-u).dot(u) for u in np.eye(2)]
    T.ok(np.all(np.array(w) > .35 * np.array(W)), 'range of the samples %s of %s' % (w, W))

@case(60, funcs=['EuclideanDomain.sample_grid'])
def grid(T):
    """grid sample = the part inside the domain of the full product grid, in lexicographic order, each once"""
    r = T.rng
    m = int(r.choice([1, 2, 3])); kind = r.choice(['box', 'linineq', 'linquad', 'uniform', 'tensor', 'normal_trunc', 'lognormal_trunc'])
    d, s = make(T, kind, m, bounded=True, eq=False, kinds=['box', 'linineq', 'uniform', 'linquad'] if kind == 'tensor' else None)
    if not (np.all(np.isfinite(d.lb)) and np.all(np.isfinite(d.ub))): return
    n = int(r.choice([1, 2, 3, 5])); T.note(n=n)
    X = d.sample_grid(n)
    G = np.array(list(itertools.product(*[np.linspace(a, b, n) for a, b in zip(d.lb, d.ub)])))
    W = G[np.array([bool(d.isinside(g)) for g in G])] if len(G) else G
    T.ok(np.ndim(X) == 2, 'two-dimensional result'); T.close(np.array(sorted(map(tuple, np.array(X).reshape(-1, s.m)))).reshape(-1, s.m), np.array(sorted(map(tuple, W))).reshape(-1, s.m), 'grid', 1e-12, 1e-12)
    if kind in ('box', 'uniform'): T.ok(len(X) == n ** s.m, 'all of the grid for a box')
    un = psdr.UnboundedDomain(2)
    T.raises(AssertionError, lambda: un.sample_grid(2), 'unbounded domain refused')

@case(15, limit=240, funcs=['EuclideanDomain.sample_boundary', 'EuclideanDomain.random_direction'])
def boundary_and_directions(T):
    """boundary samples are on the boundary; random directions can be followed and respect equalities"""
    r = T.rng
    d, s = make(T, r.choice(['box', 'linineq', 'uniform', 'linquad', 'tensor']), int(r.choice([1, 2, 3])), bounded=True, kinds=['box', 'linineq', 'uniform', 'linquad', 'point'])
    if np.all(s.lb == s.ub): return
    for _ in range(4):
        p = d.random_direction(s.x0)
        T.shape(p, (s.m,), 'direction'); T.ok(np.linalg.norm(p) > 0, 'nonzero'); 
        if len(s.Ae): T.ok(np.max(np.abs(s.Ae.dot(p))) < 1e-8, 'direction leaves the equality constraints by %g' % np.max(np.abs(s.Ae.dot(p))))
        if len(s.Ae) == 0 or True: T.ok(d.extent(s.x0, p) > 0, 'positive extent')
        T.ok(boundary(s, s.x0, p) > 0, 'feasible direction')
    if s.kind in ('linquad', 'tensor'): return      # no center, boundary sampling not offered
    for n in (1, 3):
        X = d.sample_boundary(n); T.shape(X, (s.m,) if n == 1 else (n, s.m), 'sample_boundary(%d)' % n); near_inside(T, d, s, X, 'boundary sample', 1e-4)
        for x in np.atleast_2d(X):
            v = list((x - s.lb)) + list(s.ub - x) + list(s.b - s.A.dot(x))
            T.ok(min(v) < 1e-4 * (1 + np.max(np.abs(x))), 'boundary sample is interior: %s' % v)

@case(80, funcs=['EuclideanDomain.sweep'])
def sweep(T):
    """through the point, evenly spaced between the two ends, arclength in y, arguments not modified"""
    r = T.rng
    d, s = make(T, r.choice(['box', 'linineq', 'linquad', 'uniform', 'normal_trunc', 'tensor', 'tensor']), bounded=True, kinds=['box', 'linineq', 'linquad', 'uniform', 'normal_trunc', 'point'])
    if np.all(s.lb == s.ub): return
    if s.kind != 'tensor' and s.kind not in ('box', 'uniform', 'normal_trunc') and len(s.Ae) == s.m: return
    n = int(r.choice([2, 3, 7])); x = s.x0.copy(); p = r.randn(s.m) * r.choice([.01, 1., 100.])
    if boundary(s, x, proj(s, p)) < 1e-6 / np.linalg.norm(p): return
    T.note(n=n, p=p)
    xc, pc = x.copy(), p.copy()
    X, y = d.sweep(n, x, p)
    T.ok(np.array_equal(x, xc) and np.array_equal(p, pc), 'point and direction unmodified')
    T.shape(X, (n, s.m), 'X'); T.shape(y, (n,), 'y')
    q = proj(s, p)
    ends = [x + boundary(s, x, q) * q, x - boundary(s, x, -q) * q]
    if np.linalg.norm(ends[0] - ends[1]) < 1e-6: return
    W = np.array([(1 - t) * ends[0] + t * ends[1] for t in np.linspace(0, 1, n)])
    sc = 1e-6 * (1 + np.max(np.abs(W)))
    T.ok(np.max(np.abs(X - W)) < sc or np.max(np.abs(X[::-1] - W)) < sc, 'sweep points %r, expected %r' % (X, W))
    dd = np.diff(y); L = np.linalg.norm(ends[0] - ends[1]) / (n - 1)
    T.ok(np.max(np.abs(np.abs(dd) - L)) < 1e-6 * (1 + L) + sc and (np.all(dd > 0) or np.all(dd < 0)), 'y is the length along the sweep')
    near_inside(T, d, s, X, 'sweep', 1e-4)
    T.raises(AssertionError, lambda: d.sweep(n, x, np.ones(s.m + 1)), 'wrong direction length')
    if s.kind in ('box', 'uniform') and np.all(s.ub > s.lb):
        Xc, yc = d.sweep(n, x, p, corner=True)
        c1, c2 = np.where(p >= 0, s.ub, s.lb), np.where(p <= 0, s.ub, s.lb)
        W = np.array([(1 - t) * c1 + t * c2 for t in np.linspace(0, 1, n)]); T.ok(np.max(np.abs(Xc - W)) < sc or np.max(np.abs(Xc[::-1] - W)) < sc, 'sweep between opposite corners')
    if s.kind in ('box', 'uniform'):
        X, y = d.sweep(5); T.shape(X, (5, s.m), 'random sweep'); near_inside(T, d, s, X, 'random sweep', 1e-4)
        u, v = X[0] - X[1], X[-2] - X[-1]
        T.ok(np.max(np.abs(u - v)) < 1e-6 * (1 + np.max(np.abs(X))), 'random sweep evenly spaced')
