from core import *
import psdr
from domgen import *
TOL = 1e-5

def clear(s, x, tol=TOL):
    """is the verdict on x clear of the tolerance band (rounding)?  None / True / False"""
    v = s.slack(x)
    if s.hulls:
        # the code measures hull distance in the 2-norm with its own solver: leave a wide band
        if v <= .05 * tol: return True
        if v >= 20 * tol: return False
        return None
    if v <= tol * (1 - 1e-6): return True
    if v >= tol * (1 + 1e-6): return False
    return None

@case(160, funcs=['psdr.domains.*.isinside', 'psdr.domains.*._isinside'])
def membership(T):
    """isinside(X)[i] <=> X[i] satisfies every constraint of the domain within the tolerance; batch == single"""
    d, s = make(T)
    X = near(T, s, 14)
    T.note(X=X)
    r = np.asarray(d.isinside(X))
    T.shape(r, (len(X),), 'isinside(X)')
    T.ok(r.dtype == bool, 'isinside is boolean')
    for i, x in enumerate(X):
        c = clear(s, x)
        if c is not None: T.ok(bool(r[i]) == c, 'isinside(%s) is %s, constraint violation %g' % (x, r[i], s.slack(x)))
        r1 = np.asarray(d.isinside(x))
        T.shape(r1, (1,), 'isinside(x)')
        T.ok(bool(r1[0]) == bool(r[i]), 'single-point query differs from batch for %s' % x)
    T.ok(bool(np.all(d.isinside(s.x0))), 'feasible reference point is inside')

@case(40)
def tolerance_band(T):
    """points violating a single constraint by a known amount on either side of the (default and given) tolerance"""
    d, s = make(T, kinds=['box', 'linineq', 'linquad', 'uniform', 'normal_trunc', 'lognormal_trunc', 'tensor'])
    for _ in range(10):
        p = T.rng.randn(s.m); p /= np.linalg.norm(p)
        if len(s.Ae): p = p - np.linalg.pinv(s.Ae).dot(s.Ae.dot(p))
        t = boundary(s, s.x0, p)
        if not np.isfinite(t): continue
        tol = float(T.rng.choice([TOL, 1e-3, 1e-1, 0.]))
        # bisect for the step where the violation is exactly 2*tol and .5*tol
        for f, want in ((.5, True), (2., False)):
            lo, hi = t, t + 10 * tol + 1e-3
            while s.slack(s.x0 + hi * p) < f * tol: hi = 2 * hi + 1
            for _k in range(80):
                mid = (lo + hi) / 2
                if s.slack(s.x0 + mid * p) < f * tol: lo = mid
                else: hi = mid
            if tol == 0.:
                x = s.x0 + (t * (1 - 1e-6) if want else t * (1 + 1e-6) + 1e-6) * p
                if len(s.Ae): continue
                if (s.slack(x) < 0) != want: continue
            else: x = s.x0 + lo * p
            got = np.asarray(d.isinside(x, tol=tol))[0] if tol != TOL else np.asarray(d.isinside(x))[0]
            T.ok(bool(got) == want, 'violation %g with tol %g: isinside %s' % (s.slack(x), tol, got))

@case(60)
def each_constraint_counts(T):
    """start inside, violate exactly one constraint: the point must be outside"""
    d, s = make(T, kinds=['box', 'linineq', 'linquad', 'uniform', 'normal_trunc', 'lognormal_trunc', 'lognormal', 'tensor'])
    x0 = s.x0
    for i in range(s.m):
        for v, b in ((1, s.ub[i]), (-1, s.lb[i])):
            if np.isfinite(b):
                x = x0.copy(); x[i] = b + v * .01
                T.ok(not np.any(d.isinside(x)), 'bound %d violated yet inside' % i)
                if not len(s.Ae):
                    x[i] = b
                    c = clear(s, x)
                    if c is not None: T.ok(bool(np.all(d.isinside(x))) == c, 'point on bound %d' % i)
    for a, b in zip(s.A, s.b):
        x = x0 + a * (b - a.dot(x0) + .02) / a.dot(a)
        T.ok(not np.any(d.isinside(x)), 'inequality violated yet inside')
    for a, b in zip(s.Ae, s.be):
        for sg in (1, -1): T.ok(not np.any(d.isinside(x0 + sg * .02 * a / a.dot(a))), 'equality violated yet inside')
    for L, y, rho in s.quads:
        w = np.linalg.svd(L)[2][0]
        t = (rho + .02 + np.linalg.norm(L.dot(x0 - y))) / np.linalg.norm(L.dot(w)) * 1.01
        for sg in (1, -1): T.ok(not np.any(d.isinside(x0 + sg * t * w)), 'quadratic constraint violated yet inside')

@case(25)
def wrong_dimension(T):
    """a point of the wrong dimension is never inside"""
    d, s = make(T)
    for q in (s.m + 1, s.m + 2, max(1, s.m - 1), 2 * s.m):
        if q == s.m: continue
        r = d.isinside(T.rng.randn(5, q)); T.shape(r, (5,), 'isinside wrong dimension'); T.ok(not np.any(r), 'wrong dimension inside')
        T.ok(not np.any(d.isinside(T.rng.randn(q))), 'wrong dimension inside (1d)')
        x = np.zeros(q); x[:min(q, s.m)] = s.x0[:min(q, s.m)]
        T.ok(not np.any(d.isinside(x)), 'wrong dimension inside (1d)')

@case(30)
def hull_membership(T):
    """convex combinations are inside, points off the hull are outside"""
    m = T.rng.randint(1, 5); k = T.rng.randint(1, 9)
    P = T.rng.randn(k, m) * T.rng.choice([.1, 1, 10]) + T.rng.randn(m)
    if T.rng.rand() < .3: P = np.vstack([P, P[:1]])
    T.note(P=P)
    d = psdr.ConvexHullDomain(P)
    W = T.rng.dirichlet(np.ones(len(P)), 6)
    X = W.dot(P)
    T.ok(np.all(d.isinside(X)), 'convex combinations inside')
    T.ok(np.all(d.isinside(P)), 'hull points inside')
    for _ in range(6):
        p = T.rng.randn(m); p /= np.linalg.norm(p)
        h = np.max(P.dot(p)); x = X[0] + p * (h - X[0].dot(p) + .01 * max(1, np.abs(P).max()))
        T.ok(not np.any(d.isinside(x)), 'point beyond a supporting hyperplane is inside')
