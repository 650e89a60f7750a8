from core import *
import psdr, cvxpy as cp
from psdr.exceptions import *
from domgen import *
try: from cvxpy import SolverError
except ImportError: from cvxpy.error import SolverError
SK = ['box', 'linineq', 'linquad', 'uniform', 'normal_trunc', 'lognormal_trunc', 'point']

def problem(s):
    x = cp.Variable(s.m); con = []
    for j in range(s.m):
        if np.isfinite(s.lb[j]): con.append(x[j] >= s.lb[j])
        if np.isfinite(s.ub[j]): con.append(x[j] <= s.ub[j])
    if len(s.A): con.append(s.A @ x <= s.b)
    if len(s.Ae): con.append(s.Ae @ x == s.be)
    for L, y, r in s.quads: con.append(cp.norm(L @ x - L.dot(y)) <= r)
    for I, P in s.hulls:
        a = cp.Variable(len(P), nonneg=True); con += [P.T @ a == x[I], cp.sum(a) == 1]
    for I, p in s.points: con.append(x[I] == p)
    return x, con
def ref(obj, con):
    """independent reference in application coordinates, other solver"""
    pr = cp.Problem(obj, con)
    for sv in ('ECOS', 'CVXOPT', 'SCS'):
        if sv in cp.installed_solvers():
            try:
                pr.solve(solver=sv)
                if pr.status == 'optimal': return pr.status, pr.value
                if sv != 'ECOS': return pr.status, pr.value
            except Exception: pass
    return 'none', None

def feasible(T, s, x, what, tol=5e-5):
    s.points = []                     # kept as equal bounds: solvers are not exact
    T.shape(x, (s.m,), what); T.ok(s.slack(x) <= tol * (1 + np.max(np.abs(x))), what + ': not in the domain by %g' % s.slack(x))

def pick(T, m=None, extra=()):
    kinds = SK + list(extra)
    return make(T, T.rng.choice(kinds + ['tensor']), m, bounded=T.rng.rand() < .7, kinds=None) if False else make(T, str(T.rng.choice(kinds)), m, bounded=bool(T.rng.rand() < .6))

def build(T):
    c = T.rng.rand()
    if c < .2: return make(T, 'tensor', bounded=True, kinds=['box', 'linineq', 'linquad', 'uniform', 'normal_trunc', 'point', 'hull'])
    if c < .3: return make(T, 'hull', int(T.rng.choice([1, 2, 3])))
    return make(T, str(T.rng.choice(SK)), bounded=bool(T.rng.rand() < .6))

@case(40, limit=240, funcs=['EuclideanDomain.closest_point', 'EuclideanDomain._closest_point'])
def closest(T):
    """closest point: feasible, no feasible point is closer in the given weighting; inside points are their own"""
    d, s = build(T)
    r = T.rng
    if not s.points: T.close(d.closest_point(s.x0), s.x0, 'inside point is its own closest point', 1e-12, 1e-12)
    for _ in range(2):
        x0 = s.x0 + r.randn(s.m) * r.choice([1., 5., 30.])
        L = None if r.rand() < .4 else r.randn(s.m + r.randint(0, 2), s.m) if r.rand() < .7 else np.diag(r.uniform(.1, 10, s.m))
        if not s.points and s.kind not in ('hull', 'tensor') and bool(d.isinside(x0)): continue
        T.note(x0=x0, L=L)
        M = np.eye(s.m) if L is None else L
        try: x = d.closest_point(x0, L=L) if L is not None else d.closest_point(x0)
        except SolverError: return
        feasible(T, s, x, 'closest point')
        v, con = problem(s); st, val = ref(cp.Minimize(cp.norm(M @ v - M.dot(x0))), con)
        if st == 'optimal': T.ok(np.linalg.norm(M.dot(x - x0)) <= val + 1e-3 * (1e-2 + abs(val)) + 1e-4, 'distance %g, a point at %g exists' % (np.linalg.norm(M.dot(x - x0)), val))
    T.raises(ValueError, lambda: d.closest_point(np.zeros(s.m + 1)), 'wrong dimension')

@case(40, limit=240, funcs=['EuclideanDomain.corner', 'EuclideanDomain._corner', 'BoxDomain._corner'])
def corner(T):
    """corner: feasible and no feasible point is further in the direction; unbounded directions are reported"""
    d, s = build(T)
    for _ in range(2):
        p = T.rng.randn(s.m) * T.rng.choice([.1, 1., 10.])
        if T.rng.rand() < .2: p = np.where(T.rng.rand(s.m) < .5, 0, p)
        if not np.any(p): continue
        T.note(p=p)
        v, con = problem(s); st, val = ref(cp.Maximize(p.reshape(1, -1) @ v), con) if con else ('unbounded', None)
        try: x = d.corner(p)
        except UnboundedDomainException:
            T.ok(st != 'optimal', 'reported unbounded but the maximum is %s' % val); continue
        except SolverError: continue
        except EmptyDomainException:
            if s.kind in ('box',) and not (np.all(np.isfinite(s.lb)) and np.all(np.isfinite(s.ub))): continue
            T.ok(False, 'reported empty')
        if st == 'unbounded':
            T.ok(s.kind in ('box', 'tensor') and not np.all(np.isfinite(x)), 'unbounded query returned %r' % x); continue
        feasible(T, s, x, 'corner')
        if st == 'optimal': T.ok(p.dot(x) >= val - 1e-4 * (1 + abs(val)) - 1e-4 * np.linalg.norm(p), 'objective %g, %g is attainable' % (p.dot(x), val))
    T.raises(ValueError, lambda: d.corner(np.zeros(s.m + 1)), 'wrong dimension')

@case(40, limit=240, funcs=['EuclideanDomain.constrained_least_squares', 'EuclideanDomain._constrained_least_squares'])
def cls(T):
    """constrained least squares: feasible, no feasible point has a smaller residual"""
    d, s = build(T)
    r = T.rng
    n = s.m + r.randint(0, 3); A = r.randn(n, s.m); b = A.dot(s.x0) + r.randn(n) * r.choice([.1, 3., 30.])
    T.note(A=A, b=b)
    try: x = d.constrained_least_squares(A, b)
    except SolverError: return
    if s.points and s.kind == 'point': T.close(x, s.x0, 'the point', 1e-6, 1e-6); return
    feasible(T, s, x, 'least squares')
    v, con = problem(s); st, val = ref(cp.Minimize(cp.norm(A @ v - b)), con)
    if st == 'optimal': T.ok(np.linalg.norm(A.dot(x) - b) <= val + 1e-3 * (1e-2 + abs(val)) + 1e-4, 'residual %g, %g is attainable' % (np.linalg.norm(A.dot(x) - b), val))

@case(25, limit=240, funcs=['LinIneqDomain.chebyshev_center'])
def chebyshev(T):
    """the ball of the returned radius around the center is inside the inequalities; no larger one exists"""
    d, s = make(T, str(T.rng.choice(['box', 'linineq', 'linineq', 'uniform'])), bounded=True)
    if np.any(s.ub <= s.lb): return
    c, rad = d.chebyshev_center()
    feasible(T, s, c, 'center')
    A = np.vstack([s.A, np.eye(s.m), -np.eye(s.m)]); b = np.r_[s.b, s.ub, -s.lb]
    nrm = np.linalg.norm(A, axis=1)
    T.ok(np.all(A.dot(c) + rad * nrm <= b + 1e-5 * (1 + np.abs(b))), 'ball inside')
    x, r = cp.Variable(s.m), cp.Variable()
    con = [A @ x + nrm * r <= b] + ([s.Ae @ x == s.be] if len(s.Ae) else [])
    st, val = ref(cp.Maximize(r), con)
    if st == 'optimal': T.ok(rad >= val - 1e-5 * (1 + abs(val)), 'radius %g, %g exists' % (rad, val))
    T.close(d.center, c, 'center property'); T.close(d.radius, rad, 'radius property')

@case(20, limit=240, funcs=['EuclideanDomain.is_empty', 'EuclideanDomain.is_unbounded', 'EuclideanDomain.is_point'])
def meta(T):
    """empty domains are reported empty, unbounded ones unbounded, points as points"""
    r = T.rng; m = int(r.choice([2, 3])); x0 = r.randn(m)
    a = r.randn(1, m)
    e = psdr.LinIneqDomain(A=np.vstack([a, -a]), b=np.array([a.dot(x0)[0], -a.dot(x0)[0] - 1.]), lb=x0 - 10, ub=x0 + 10)
    T.ok(e.is_empty, 'disjoint half spaces are empty')
    T.raises(EmptyDomainException, lambda: e.corner(np.ones(m)), 'corner of an empty domain'); T.raises(EmptyDomainException, lambda: e.closest_point(x0), 'closest point of an empty domain')
    f = psdr.LinIneqDomain(A=np.vstack([a, -a]), b=np.array([a.dot(x0)[0] + .5, -a.dot(x0)[0] + .5]), lb=x0 - 10, ub=x0 + 10)
    T.ok(not f.is_empty, 'slab is not empty'); T.ok(not f.is_unbounded, 'bounded slab'); T.ok(not f.is_point, 'slab is not a point')
    h = psdr.LinIneqDomain(A=a, b=a.dot(x0) + 1.)
    T.ok(h.is_unbounded, 'half space is unbounded'); T.ok(not h.is_empty, 'half space not empty')
    T.raises(UnboundedDomainException, lambda: h.corner(-a[0]), 'corner of a half space')
    q = psdr.LinIneqDomain(A_eq=np.eye(m), b_eq=x0, lb=x0 - 1, ub=x0 + 1)
    T.ok(q.is_point, 'equality constraints fixing every coordinate give a point')
    p = psdr.PointDomain(x0); T.ok(p.is_point and not p.is_empty and not p.is_unbounded, 'point')
    b = psdr.BoxDomain(x0, x0 + 1); T.ok(not b.is_point and not b.is_empty and not b.is_unbounded, 'box')
    T.ok(psdr.BoxDomain(x0, x0 - 1).is_empty, 'box with crossing bounds'); T.ok(psdr.BoxDomain(x0, np.inf * np.ones(m)).is_unbounded, 'unbounded box'); T.ok(psdr.BoxDomain(x0, x0).is_point, 'degenerate box')
