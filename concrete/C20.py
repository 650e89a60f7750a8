from core import *
import psdr
from psdr.geometry import *
from psdr.geometry import cdist as pcdist
from psdr.geometry.vertex import voronoi_vertex_1d
from scipy.spatial.distance import cdist as scd

def pts(T, m=None, M=None, scale=True):
    r = T.rng; m = m or int(r.randint(1, 5)); M = M or int(r.randint(1, 9)); X = r.randn(M, m) * (10.0 ** r.uniform(-2, 2) if scale else 1)
    return X
def metric(T, m, square=False):
    r = T.rng; k = int(r.randint(0, 4)) if not square else int(r.randint(0, 3))
    if k == 0: return None
    if k == 1: return r.randn(m, m) + 2 * np.eye(m)
    if k == 2: return np.diag(.2 + r.rand(m))
    return r.randn(int(r.randint(1, m + 2)), m)
def dist(L, X, Y): return np.array([[np.sqrt(np.sum(((np.eye(len(x)) if L is None else L).dot(x - y)) ** 2)) for y in Y] for x in X])

@case(60, funcs=['cdist'])
def distances(T):
    """pairwise distances are the weighted Euclidean ones, inputs untouched"""
    X = pts(T); m = X.shape[1]; Y = pts(T, m); L = metric(T, m); T.note(X=X, Y=Y, L=L); X0, Y0 = X.copy(), Y.copy()
    D = pcdist(X, Y, L); T.ok(D.shape == (len(X), len(Y)), 'shape'); T.close(D, dist(L, X, Y), 'weighted distance', 1e-9, 1e-9)
    T.close(pcdist(X[0], Y, L), D[:1], 'single left point', 1e-12, 1e-12); T.close(pcdist(X, Y[0], L), D[:, :1], 'single right point', 1e-12, 1e-12)
    T.close(X, X0, 'input untouched', 0, 0); T.close(Y, Y0, 'input untouched', 0, 0)

@case(60, funcs=['unique_points'])
def unique(T):
    """exactly one representative of every distinct point is kept"""
    r = T.rng; X = pts(T, scale=False)
    X = np.vstack([X, X[r.randint(0, len(X), size=int(r.randint(0, 6)))]]); X = X[r.permutation(len(X))]
    if r.rand() < .3: X = np.round(X)
    T.note(X=X); X0 = X.copy(); I = np.asarray(unique_points(X)); T.close(X, X0, 'input untouched', 0, 0)
    T.ok(I.shape == (len(X),) and I.dtype == bool, 'one flag per point')
    groups = np.unique(X, axis=0)
    T.ok(I.sum() == len(groups), 'as many representatives as distinct points', got=int(I.sum()), want=len(groups))
    for g in groups: T.ok(np.sum(I & np.all(X == g, axis=1)) == 1, 'exactly one representative', point=g)

@case(30, funcs=['sample_sphere', 'sample_simplex'])
def spheres(T):
    """sphere samples have unit norm, simplex samples nonnegative weights summing to one"""
    r = T.rng; d, n = int(r.randint(1, 6)), int(r.randint(1, 12)); X = sample_sphere(d, n, k=int(r.randint(1, 30))); T.ok(X.shape == (n, d), 'shape'); T.close(np.sqrt(np.sum(X ** 2, axis=1)), np.ones(n), 'unit norm', 1e-10, 0)
    A = sample_simplex(d, n); T.ok(A.shape == (n, d), 'shape', got=A.shape); T.ok(np.all(A >= 0), 'nonnegative'); T.close(A.sum(axis=1), np.ones(n), 'weights sum to one', 1e-12, 0)

def polytope(T, m):
    r = T.rng; lb = r.randn(m); ub = lb + .5 + r.rand(m) * 2
    if r.rand() < .5: return psdr.BoxDomain(lb, ub), np.vstack([np.eye(m), -np.eye(m)]), np.hstack([ub, -lb])
    c = (lb + ub) / 2; k = int(r.randint(1, 4)); A = r.randn(k, m); b = A.dot(c) + np.linalg.norm(A, axis=1) * (.15 + r.rand(k) * .5)
    return psdr.LinIneqDomain(A=A, b=b, lb=lb, ub=ub), np.vstack([A, np.eye(m), -np.eye(m)]), np.hstack([b, ub, -lb])

@case(30, limit=200, funcs=['voronoi_vertex', 'fill_distance', 'fill_distance_estimate'])
def vertices(T):
    """bounded Voronoi vertices: in the domain, no sample closer than the generators, at least m active conditions; fill distance attained and not exceeded"""
    r = T.rng; m = int(r.randint(1, 4)); dom, A, b = polytope(T, m); M = int(r.randint(1, 7)); X = np.atleast_2d(dom.sample(M)).reshape(M, m)
    if r.rand() < .25 and M > 1: X = np.vstack([X, X[:1]])
    L = metric(T, m, True) if m > 1 else None; T.note(m=m, X=X, L=L, A=A, b=b); X0 = X.copy()
    V = voronoi_vertex(dom, X, L=L); T.close(X, X0, 'input untouched', 0, 0)
    T.ok(V.ndim == 2 and V.shape[1] == m and len(V) > 0, 'vertices are rows'); T.ok(np.all(V.dot(A.T) <= b + 1e-6), 'vertices inside the domain')
    D = dist(L, V, X); Xu = np.unique(X, axis=0); Du = dist(L, V, Xu); dm = Du.min(axis=1)
    for i, v in enumerate(V):
        near = np.sum(Du[i] <= dm[i] + 1e-6 * (1 + dm[i])); act = np.sum(A.dot(v) >= b - 1e-6)
        T.ok(near - 1 + act >= m, 'as many equidistant samples and active constraints as dimensions', v=v, near=near, active=act)
    fd = fill_distance(dom, X, L=L); T.ok(fd <= dm.max() * (1 + 1e-8) + 1e-12 and fd >= dm.max() * (1 - 1e-8), 'fill distance attained at a vertex')
    Z = np.atleast_2d(dom.sample(300)).reshape(-1, m); T.ok(dist(L, Z, X).min(axis=1).max() <= fd + 1e-6, 'no point of the domain farther from the samples than the fill distance', got=fd, far=dist(L, Z, X).min(axis=1).max())
    est = fill_distance_estimate(dom, X, L=L, Nsamp=20); T.ok(0 <= est <= fd + 1e-6 * (1 + fd), 'estimated fill distance not above the exact one', est=est, exact=fd)
    est = fill_distance_estimate(dom, X, L=L, X0=Z[:5]); T.ok(est <= fd + 1e-6 * (1 + fd), 'estimated fill distance not above the exact one'); T.ok(est >= dist(L, Z[:5], X).min(axis=1).max() - 1e-6, 'estimate at least the distance of the starting points')

@case(30, limit=200, funcs=['voronoi_vertex_sample'])
def sampled(T):
    """sampled vertices stay in the domain, never move closer to the samples, and meet m conditions in general position"""
    r = T.rng; m = int(r.randint(1, 5)); dom, A, b = polytope(T, m); M = int(r.randint(1, 8)); X = np.atleast_2d(dom.sample(M)).reshape(M, m); N = int(r.randint(1, 8)); Z = np.atleast_2d(dom.sample(N)).reshape(N, m)
    L = metric(T, m); T.note(m=m, X=X, Z=Z, L=L, A=A, b=b); Z0 = Z.copy(); rnd = bool(r.rand() < .5)
    V = voronoi_vertex_sample(dom, X, Z, L=L, randomize=rnd); T.close(Z, Z0, 'starting points untouched', 0, 0)
    T.ok(V.shape == (N, m), 'one vertex per starting point'); T.ok(np.all(np.isfinite(V)), 'finite'); T.ok(np.all(V.dot(A.T) <= b + 1e-6), 'inside the domain', worst=np.max(V.dot(A.T) - b))
    d0, d1 = dist(L, Z, X).min(axis=1), dist(L, V, X).min(axis=1)
    T.ok(np.all(d1 >= d0 - 1e-6 * (1 + d0)) or (rnd and L is not None), 'never closer to the samples than the starting points', d0=d0, d1=d1)
    if L is None:
        for i, v in enumerate(V):
            D = dist(L, [v], X)[0]; near = np.sum(D <= D.min() + 1e-5); act = np.sum(A.dot(v) >= b - 1e-5)
            T.ok(near - 1 + act >= 1, 'an equidistance or boundary condition met', v=v, near=near, active=act)

@case(25, limit=120, funcs=['miniball'])
def ball(T):
    """the minimum enclosing ball contains all points, is tight, and no smaller ball does"""
    X = pts(T, scale=False); M, m = X.shape; L = metric(T, m, True); T.note(X=X, L=L)
    x, rad = miniball(X, L); rad = float(rad); d = dist(L, X, [x])[:, 0]
    T.ok(np.shape(x) == (m,), 'centre'); T.ok(np.all(d <= rad + 1e-5 * (1 + rad)), 'all points inside', d=d, r=rad); T.ok(d.max() >= rad - 1e-5 * (1 + rad), 'radius attained')
    for _ in range(30):
        y = x + T.rng.randn(m) * 10.0 ** T.rng.uniform(-4, 0); T.ok(dist(L, X, [y]).max() >= rad - 1e-4 * (1 + rad), 'no smaller ball', centre=y)
