from core import *
import psdr
from domgen import *
KS = ['box', 'linineq', 'linquad', 'point', 'uniform', 'normal_trunc', 'lognormal_trunc']

def check(T, d, s, x, p, what, tol=1e-6):
    x0, p0 = x.copy(), p.copy()
    a = d.extent(x, p)
    T.ok(np.array_equal(x, x0) and np.array_equal(p, p0), what + ': inputs unmodified')
    T.ok(np.ndim(a) == 0 and not np.isnan(a) and a >= 0, what + ': a nonnegative number, got %r' % (a,))
    t = boundary(s, x, p)
    sc = max(1., np.linalg.norm(p))
    if not np.isfinite(t): T.ok(a == np.inf or a > 1e8, what + ': extent %r but one can move forever' % a); return
    if s.points: T.ok(a == 0 or not np.any([p[I] != 0 for I, _ in s.points]), what + ': a point cannot be left'); return
    T.ok(np.isfinite(a), what + ': infinite extent but the limit is %g' % t)
    T.ok(abs(a - t) * np.linalg.norm(p) <= tol * (1 + abs(t) * np.linalg.norm(p) + np.max(np.abs(x))), what + ': extent %r, closed form %r' % (float(a), t))
    T.ok(s.slack(x + a * p) <= 1e-5 * (1 + np.max(np.abs(x)) + abs(a) * sc), what + ': end point outside by %g' % s.slack(x + a * p))

def dirs(T, s):
    r = T.rng; out = []
    for _ in range(4):
        p = r.randn(s.m) * r.choice([1e-3, 1., 1e3])
        c = r.rand()
        if c < .3: p = np.where(r.rand(s.m) < .5, 0., p)
        elif c < .45: p = np.zeros(s.m); p[r.randint(s.m)] = r.choice([-1., 1.])
        if len(s.Ae) and r.rand() < .8: p = p - np.linalg.pinv(s.Ae).dot(s.Ae.dot(p))
        out.append(p)
    return out

@case(300, funcs=['EuclideanDomain._extent_bounds', 'EuclideanDomain._extent_ineq', 'EuclideanDomain._extent_quad', '*._extent', 'EuclideanDomain.extent'])
def interior(T):
    """from interior points along generic, sparse and scaled directions"""
    d, s = make(T, kinds=KS + ['tensor'])
    for p in dirs(T, s): T.note(p=p); check(T, d, s, s.x0.copy(), p, 'interior')

@case(200)
def on_boundary(T):
    """from a point on the boundary: inwards, along and outwards"""
    d, s = make(T, T.rng.choice(['box', 'linineq', 'linquad', 'uniform', 'normal_trunc']))
    for p in dirs(T, s):
        t = boundary(s, s.x0, p)
        if not np.isfinite(t) or t == 0: continue
        x = s.x0 + t * (1 - 1e-13) * p
        if s.slack(x) > 0 and len(s.Ae) == 0: x = s.x0 + t * (1 - 1e-9) * p
        if not d.isinside(x): continue
        T.note(x=x, p=p)
        for q in (p, -p): 
            a = d.extent(x, q); w = boundary(s, x, q)
            T.ok(a >= 0 and not np.isnan(a), 'nonnegative at the boundary')
            if np.isfinite(w): T.ok(abs(a - w) * np.linalg.norm(q) < 1e-4 * (1 + abs(w) * np.linalg.norm(q)), 'extent %r from the boundary, closed form %r' % (float(a), w))
            else: T.ok(a > 1e8, 'one can move forever')

@case(25, limit=240, funcs=['_Extent', 'ConvexHullDomain'])
def hulls(T):
    """convex hulls (with further constraints) against a linear program"""
    d, s = make(T, 'hull')
    for p in dirs(T, s)[:3]:
        if np.linalg.norm(p) == 0 or np.linalg.norm(p) > 100 or np.linalg.norm(p) < .01: p = T.rng.randn(s.m)
        T.note(p=p); check(T, d, s, s.x0.copy(), p, 'hull', 2e-4)

@case(60)
def arguments(T):
    """wrong dimension is refused, a point outside is refused, lists are accepted"""
    d, s = make(T, T.rng.choice(['box', 'linineq', 'linquad', 'uniform']))
    p = T.rng.randn(s.m)
    T.raises(ValueError, lambda: d.extent(np.zeros(s.m + 1), p), 'wrong dimension')
    t = boundary(s, s.x0, p)
    if np.isfinite(t): T.raises(AssertionError, lambda: d.extent(s.x0 + (t + 1 + abs(t)) * p, p), 'point outside')
    T.close(d.extent(list(s.x0), p), d.extent(s.x0, p), 'lists', 0, 0)
