from core import *
import psdr, domgen
from psdr.sample import *
from psdr.sample.maximin import maximin_design_1d
from psdr.sample.minimax import minimax_design_1d
from scipy.spatial.distance import pdist
from scipy.spatial import QhullError

def box(T, m=None, fixed=False):
    r = T.rng; m = m or int(r.randint(1, 5)); lb = r.randn(m) * 10.0 ** r.uniform(-1, 1); ub = lb + .1 + r.rand(m) * 10.0 ** r.uniform(-1, 1)
    return psdr.BoxDomain(lb, ub), lb, ub
def polytope(T, m=None, eq=None):
    r = T.rng; d, lb, ub = box(T, m); m = len(d); cons = []
    if r.rand() < .6:
        c = (lb + ub) / 2; k = int(r.randint(1, 3)); A = r.randn(k, m); b = A.dot(c) + np.linalg.norm(A * (ub - lb), axis=1) * (.1 + r.rand(k) * .3); d = d.add_constraints(A=A, b=b); cons.append(('in', A, b))
    if (r.rand() < .25 if eq is None else eq) and m > 1:
        A = r.randn(1, m); b = A.dot((lb + ub) / 2); d = d.add_constraints(A_eq=A, b_eq=b); cons.append(('eq', A, b))
    def inside(X, tol=2e-5):
        X = np.asarray(X); s = 1 + np.max(np.abs(np.hstack([lb, ub])))
        if not np.all(np.isfinite(X)) or np.any(X < lb - tol * s) or np.any(X > ub + tol * s): return False
        for kind, A, b in cons:
            v = X.dot(A.T) - b; w = tol * s * (1 + np.linalg.norm(A, axis=1))
            if kind == 'in' and np.any(v > w) or kind == 'eq' and np.any(np.abs(v) > w): return False
        return True
    return d, inside, lb, ub
def design(T, X, N, m, inside):
    X = np.asarray(X); T.ok(X.shape == (N, m), 'requested number of points', got=X.shape, want=(N, m)); T.ok(inside(X), 'inside the domain', X=X)
    return X
def metric(T, m):
    r = T.rng; k = int(r.randint(0, 3))
    return None if k == 0 else r.randn(m, m) + 2 * np.eye(m) if k == 1 else np.diag(.3 + r.rand(m))

@case(80, funcs=['latin_hypercube_sample', 'latin_hypercube_maximin', '_latin_hypercube_sample_box', '_latin_hypercube_maximin_box'])
def latin_box(T):
    """one sample in each stratum of each coordinate of a box"""
    d, lb, ub = box(T); m = len(d); N = int(T.rng.randint(1, 12)); T.note(lb=lb, ub=ub, N=N)
    for X in (latin_hypercube_sample(d, N), latin_hypercube_maximin(d, N, maxiter=int(T.rng.randint(0, 30)))):
        T.ok(np.shape(X) == (N, m), 'shape', got=np.shape(X)); T.ok(np.all(X >= lb - 1e-12 * (1 + abs(lb))) and np.all(X <= ub + 1e-12 * (1 + abs(ub))), 'inside the box')
        for i in range(m):
            k = np.floor((X[:, i] - lb[i]) / (ub[i] - lb[i]) * N).astype(int); T.ok(sorted(k) == list(range(N)), 'one sample in each stratum', coordinate=i, strata=sorted(k))

@case(10, limit=200, funcs=['latin_hypercube_sample', 'projection_sample'])
def latin_polytope(T):
    """generalized Latin hypercubes on polytopes: inside, right count, one point in each stratum of each coordinate's range"""
    d, inside, lb, ub = polytope(T, int(T.rng.randint(2, 4)), eq=False); m = len(d); N = int(T.rng.randint(1, 5))
    X = latin_hypercube_sample(d, N) if T.rng.rand() < .5 else latin_hypercube_maximin(d, N, maxiter=2)
    if X is None: raise Skip
    T.note(X=X); design(T, X, N, m, inside)
    for i in range(m):
        u = np.eye(m)[i]; lo, hi = float(d.corner(-u)[i]), float(d.corner(u)[i]); t = (X[:, i] - lo) / (hi - lo) * N; o = np.sort(t); T.ok(np.all(o >= np.arange(N) - 1e-4) and np.all(o <= np.arange(N) + 1 + 1e-4), 'one sample in each stratum', coordinate=i, strata=o)

@case(25, limit=120, funcs=['poisson_disk_sample', 'poisson_disk_sample_grid'])
def poisson(T):
    """Poisson-disk samples keep their distance and stay inside"""
    r = T.rng; d, inside, lb, ub = polytope(T, int(r.randint(1, 4)), eq=False); m = len(d); L = metric(T, m); Z = d.sample(60).reshape(-1, m); Y = Z if L is None else Z.dot(L.T); rad = pdist(Y).max() * r.uniform(.15, .6); T.note(L=L, r=rad)
    for f in (poisson_disk_sample, poisson_disk_sample_grid):
        X = f(d, rad, L=L, Ntries=int(r.choice([5, 10, 20]))); T.ok(X.ndim == 2 and X.shape[1] == m and len(X) >= 1, 'rows are points'); T.ok(inside(X), f.__name__ + ' inside the domain')
        Y = X if L is None else X.dot(L.T); T.ok(len(X) < 2 or pdist(Y).min() >= rad * (1 - 1e-9), f.__name__ + ' pairwise distance at least the radius', got=pdist(Y).min() if len(X) > 1 else None, r=rad)

@case(12, limit=150, funcs=['maximin_coffeehouse'])
def coffeehouse(T):
    """coffeehouse designs: inside, count, decreasing separation"""
    r = T.rng; d, inside, lb, ub = polytope(T); m = len(d); N = int(r.randint(1, 7)); L = metric(T, m); full = [None, False, True][int(r.randint(0, 3))]
    if full and len(d.A_eq): full = None
    T.note(N=N, L=L, full=full); X = design(T, maximin_coffeehouse(d, N, L=L, verbose=False, full=full), N, m, inside)
    if len(d.A_eq) == 0 and (full or full is None and m <= 3):
        Y = X if L is None else X.dot(L.T); h = [np.min(np.linalg.norm(Y[:j] - Y[j], axis=1)) for j in range(1, N)]
        T.ok(np.all(np.diff(h) <= 1e-7 * (1 + max(h + [0]))), 'exhaustive coffeehouse distances decrease', h=h)
        if N > 1:
            j = int(r.randint(1, N)); Z = d.sample(200).reshape(-1, m); Y2 = Z if L is None else Z.dot(L.T)
            far = max(np.min(np.linalg.norm(Y[:j] - z, axis=1)) for z in Y2); T.ok(h[j - 1] >= far - 1e-6 * (1 + far), 'new point at least as far as any other point of the domain', got=h[j - 1], far=far)

@case(12, limit=200, funcs=['seq_maximin_sample'])
def sequential(T):
    """sequential maximin samples: inside and close to the best candidate"""
    r = T.rng; d, inside, lb, ub = polytope(T, int(r.randint(1, 4))); m = len(d); M = int(r.randint(0, 5)); Xhat = d.sample(M).reshape(-1, m) if M else np.zeros((0, m))
    Ls = None if r.rand() < .5 else [np.eye(m)[i:i + 1] for i in range(min(m, 2))] if r.rand() < .5 else [r.randn(m, m) + 2 * np.eye(m)]; X0 = Xhat.copy(); T.note(Xhat=Xhat, Ls=Ls)
    x = np.asarray(seq_maximin_sample(d, Xhat, Ls=Ls, Nsamp=40)).flatten(); T.ok(x.shape == (m,), 'one point'); T.ok(inside(x), 'inside the domain', x=x); T.close(Xhat, X0, 'given samples untouched', 0, 0)

@case(10, limit=200, funcs=['maximin_block', 'maximin_design_1d', 'initial_sample'])
def block(T):
    """block maximin designs and initial samples: inside, count, one-dimensional designs evenly spread"""
    r = T.rng; d, inside, lb, ub = polytope(T); m = len(d); N = int(r.randint(1, 6)); k = int(r.randint(1, m + 1)); L = None if r.rand() < .4 else r.randn(k, m); T.note(N=N, L=L)
    if len(d.A_eq) == 0:
        Z = design(T, initial_sample(d, np.eye(m) if L is None else L, Nsamp=N), N, m, inside)
    X = design(T, maximin_block(d, N, L=L, maxiter=3), N, m, inside)
    l = r.randn(1, m); X = design(T, maximin_design_1d(d, N, L=l), N, m, inside); y = np.sort(X.dot(l.T).flatten()); lo, hi = float(l.dot(d.corner(-l.flatten())).item()), float(l.dot(d.corner(l.flatten())).item())
    if N > 1: T.close(y, np.linspace(lo, hi, N), 'evenly spread over the whole range', 1e-5, 1e-5 * (1 + abs(hi) + abs(lo)))
    X = design(T, minimax_design_1d(d, N, L=l), N, m, inside); y = np.sort(X.dot(l.T).flatten()); T.close(y, lo + (hi - lo) * (np.arange(N) + .5) / N, 'midpoints of equal cells', 1e-5, 1e-5 * (1 + abs(hi) + abs(lo)))

@case(40, funcs=['sobol_sequence', 'random_sample'])
def sobol(T):
    """Sobol and random designs: inside and count"""
    d, inside, lb, ub = polytope(T, eq=False); m = len(d); N = int(T.rng.randint(1, 40)); X = design(T, sobol_sequence(d, N), N, m, lambda X: inside(X, 2e-5)); T.ok(len(np.unique(X, axis=0)) == N, 'distinct')
    design(T, np.asarray(random_sample(d, N)).reshape(N, m), N, m, inside)

@case(8, limit=200, funcs=['projection_sample'])
def projections(T):
    """projected designs: inside, count, and their projections are maximin designs of each metric with no repetition"""
    r = T.rng; d, lb, ub = box(T, int(r.randint(2, 5))); m = len(d); Ls = [r.randn(1, m)] if r.rand() < .4 else [r.randn(1, m), r.randn(1, m)] if r.rand() < .6 else [r.randn(2, m)] if m > 2 and r.rand() < .5 else [np.eye(m)[:1], np.eye(m)[1:]]; N = int(r.randint(1, 5)); T.note(Ls=Ls, N=N, lb=lb, ub=ub)
    X = projection_sample(d, N, Ls, maxiter=2)
    if X is None: raise Skip
    s = 1 + np.max(np.abs(np.hstack([lb, ub]))); X = design(T, X, N, m, lambda X: np.all(np.isfinite(X)) and np.all(X >= lb - 1e-5 * s) and np.all(X <= ub + 1e-5 * s))
    if len(Ls) == 1 and Ls[0].shape[0] == 1 and N > 1:
        y = np.sort(X.dot(Ls[0].T).flatten()); w = np.abs(Ls[0][0]); c = Ls[0][0].dot((lb + ub) / 2); h = w.dot((ub - lb) / 2); T.close(y, np.linspace(c - h, c + h, N), 'projection is the evenly spread design', 1e-4, 1e-4 * (1 + h + abs(c)))

@case(8, limit=200, funcs=['stretch_sample', 'stretch_sample_domain'])
def stretched(T):
    """stretched samples stay inside and the restricted domain keeps the chosen coordinates of a domain point"""
    r = T.rng; d, inside, lb, ub = polytope(T, int(r.randint(2, 5)), eq=False); m = len(d); X = d.sample(int(r.randint(1, 5))).reshape(-1, m); n = int(r.randint(1, m)); Ls = [r.randn(1, m) for _ in range(n)]; X0 = X.copy(); Ls0 = [L.copy() for L in Ls]; T.note(X=X, Ls=Ls)
    dd = psdr.stretch_sample_domain(d, X, Ls); T.close(X, X0, 'samples untouched', 0, 0); T.ok(len(Ls) == len(Ls0) and all(np.array_equal(a, b) for a, b in zip(Ls, Ls0)), 'metrics untouched')
    T.ok(len(dd.A_eq) <= n, 'at most one equality per metric'); Z = np.asarray(dd.sample(3)).reshape(3, m); T.ok(inside(Z), 'restricted domain inside the domain')
    for a in dd.A_eq: T.ok(any(np.linalg.matrix_rank(np.vstack([a, L]), tol=1e-6) == 1 for L in Ls), 'equalities fix the given coordinates')
    x = psdr.stretch_sample(d, X, Ls); T.ok(np.shape(x) == (m,) and inside(x), 'stretched sample inside')

@case(4, limit=150, funcs=['SequentialMaximinSampler', 'Sampler'])
def sampler(T):
    """the sequential sampler appends its points and their values in order"""
    r = T.rng; d, lb, ub = box(T, int(r.randint(1, 4))); m = len(d); a = r.randn(m); f = psdr.Function(lambda x: x.dot(a), psdr.BoxDomain(lb, ub)); X = None; fX = None
    if r.rand() < .6: X = f.domain.sample(2).reshape(-1, m); fX = f(X)
    S = psdr.SequentialMaximinSampler(f, L=None if r.rand() < .5 else r.randn(m, m) + 2 * np.eye(m), X=X, fX=fX); n = 0 if X is None else 2
    for k in (1, 2): S.sample(k); n += k; T.ok(S.X.shape == (n, m), 'one point per draw', got=S.X.shape); T.ok(np.shape(S.fX)[0] == n, 'one value per point'); T.close(np.asarray(S.fX).reshape(n), f(S.X).reshape(n), 'values of the appended points', 1e-10, 1e-10)
    T.ok(f.domain.isinside(S.X).all(), 'inside the domain')
    if X is not None: T.close(S.X[:2], X, 'existing samples kept first', 0, 0)

@case(4, limit=300, funcs=['minimax_lloyd', 'minimax_scale', 'minimax_cluster', 'minimax_covering'])
def minimax(T):
    """minimax designs: inside and count"""
    r = T.rng; d, inside, lb, ub = polytope(T, 2, eq=False); m = len(d); N = int(r.randint(1, 5)); 
    try: X = minimax_lloyd(d, N, maxiter=3, verbose=False)
    except QhullError: raise Skip
    design(T, X, N, m, inside)
    design(T, minimax_cluster(d, N, maxiter=3, verbose=False), N, m, inside)
