from core import *
import psdr
from domgen import *

@case(160, funcs=['psdr.domains.*.normalized_domain'])
def same_set(T):
    """x in domain <=> normalize(x) in the normalized domain, and its constraint values are those of the original"""
    d, s = make(T, kinds=['box', 'linineq', 'linineq', 'linquad', 'linquad', 'hull', 'point', 'uniform', 'normal_trunc', 'normal', 'lognormal', 'lognormal_trunc', 'unbounded', 'tensor', 'tensor'])
    dn = d.normalized_domain()
    T.ok(len(dn) == s.m, 'dimension kept')
    X = near(T, s, 12); T.note(X=X[0])
    Xn = d.normalize(X)
    for x, xn in zip(X, Xn):
        sl = s.slack(x)
        if s.points and not s.lb[s.points[0][0]][0] == x[s.points[0][0]][0]: sl = s.slack(x)
        if s.points: continue
        if sl < -1e-3: T.ok(dn.isinside(xn), 'point strictly inside (slack %g) but its normalization is outside the normalized domain' % sl)
        w = np.max(np.append(1., (s.ub - s.lb)[np.isfinite(s.ub - s.lb)]))
        if sl > 1e-3 * w: T.ok(not dn.isinside(xn), 'point outside (violation %g) but its normalization is inside the normalized domain' % sl)
    # constraint values
    if s.kind == 'unbounded': return
    if not s.points:
        T.ok(np.all(np.isfinite(d.lb_norm) == np.isfinite(s.lb)) or s.kind.startswith('normal'), 'finite lower bounds stay finite')
        T.ok(np.all(np.isfinite(d.ub_norm) == np.isfinite(s.ub)) or s.kind.startswith('normal'), 'finite upper bounds stay finite')
        T.close(dn.A.dot(Xn.T) - dn.b.reshape(-1, 1), d.A.dot(X.T) - d.b.reshape(-1, 1), 'inequality values', 1e-6, 1e-6 * (1 + np.abs(X).max()))
        T.close(dn.A_eq.dot(Xn.T) - dn.b_eq.reshape(-1, 1), d.A_eq.dot(X.T) - d.b_eq.reshape(-1, 1), 'equality values', 1e-6, 1e-6 * (1 + np.abs(X).max()))
        T.ok(len(dn.Ls) == len(d.Ls), 'number of quadratic constraints')
        for L, y, r, L0, y0, r0 in zip(dn.Ls, dn.ys, dn.rhos, d.Ls, d.ys, d.rhos):
            for x, xn in zip(X, Xn):
                T.close(np.linalg.norm(L.dot(xn - y)), np.linalg.norm(L0.dot(x - y0)), 'quadratic value', 1e-6, 1e-6 * (1 + np.abs(x).max()))
            T.close(r, r0, 'radius', 1e-12, 0)

@case(40)
def point_domain(T):
    """the normalization of a point domain contains exactly the normalized point"""
    d, s = make(T, 'point')
    dn = d.normalized_domain(); xn = d.normalize(s.x0)
    T.ok(dn.isinside(xn), 'the point itself')
    T.ok(not dn.isinside(xn + .1), 'another point')

@case(40)
def boundary_points(T):
    """points on either side of each single constraint's boundary"""
    d, s = make(T, kinds=['box', 'linineq', 'linquad', 'tensor'], eq=False)
    if s.hulls or s.points: raise Skip('')
    dn = d.normalized_domain()
    for _ in range(6):
        p = T.rng.randn(s.m); t = boundary(s, s.x0, p)
        if not np.isfinite(t): continue
        if t < 1e-3: continue
        a, b = s.x0 + .99 * t * p, s.x0 + (1.01 * t + .02) * p
        T.ok(dn.isinside(d.normalize(a)), 'just inside the boundary'); T.ok(not dn.isinside(d.normalize(b)), 'just outside the boundary')
