"""Random domains with an independent description of the set each stands for."""
import numpy as np
import psdr
from scipy.optimize import linprog

class Spec(object):
    """constraint data of a set, kept apart from the domain object; hull = list of (slice, points)"""
    def __init__(self, m):
        self.m = m
        self.lb, self.ub = -np.inf * np.ones(m), np.inf * np.ones(m)
        self.A, self.b, self.Ae, self.be = np.zeros((0, m)), np.zeros(0), np.zeros((0, m)), np.zeros(0)
        self.quads, self.hulls, self.points, self.x0 = [], [], [], None
    def slack(self, x):
        """largest violation (<= 0 inside); hull part by distance estimate"""
        x = np.asarray(x, float)
        v = [0. if self.m else 0.]
        v = [-np.inf]
        with np.errstate(invalid='ignore'):
            v += list((self.lb - x)[np.isfinite(self.lb)]) + list((x - self.ub)[np.isfinite(self.ub)])
        v += list(self.A.dot(x) - self.b) + list(np.abs(self.Ae.dot(x) - self.be))
        v += [np.linalg.norm(L.dot(x - y)) - r for L, y, r in self.quads]
        for I, P in self.hulls: v.append(hull_dist(P, x[I]))
        for I, p in self.points: v.append(np.inf if np.any(x[I] != p) else -np.inf)
        return max(v)
    def inside(self, x, tol): return self.slack(x) <= tol

def hull_dist(P, x):
    """1-norm distance from x to conv(P) (linear program; independent of the code's nnls)"""
    k, m = P.shape
    c = np.r_[np.zeros(k), np.ones(2 * m)]
    Ae = np.block([[P.T, np.eye(m), -np.eye(m)], [np.ones((1, k)), np.zeros((1, 2 * m))]])
    r = linprog(c, A_eq=Ae, b_eq=np.r_[x, 1.], bounds=[(0, None)] * (k + 2 * m), method='highs')
    return r.fun

def embed(spec, subs):
    off = 0
    for s in subs:
        m = s.m; I = slice(off, off + m)
        spec.lb[I], spec.ub[I] = s.lb, s.ub
        def pad(M):
            Z = np.zeros((M.shape[0], spec.m)); Z[:, I] = M; return Z
        spec.A = np.vstack([spec.A, pad(s.A)]); spec.b = np.r_[spec.b, s.b]
        spec.Ae = np.vstack([spec.Ae, pad(s.Ae)]); spec.be = np.r_[spec.be, s.be]
        for L, y, r in s.quads:
            Y = np.zeros(spec.m); Y[I] = y
            spec.quads.append((pad(L), Y, r))
        for J, P in s.hulls: spec.hulls.append((slice(off + J.start, off + J.stop), P))
        for J, p in s.points: spec.points.append((slice(off + J.start, off + J.stop), p))
        off += m
    spec.x0 = np.hstack([s.x0 for s in subs])

def lin_data(T, s, eq=True, bounds='any', k=None):
    """fill bounds / inequalities / equalities around a point x0"""
    r = T.rng; m = s.m
    x0 = r.randn(m) * r.choice([1., 1., 10.])
    w = lambda: r.uniform(.2, 3., m)
    lb, ub = x0 - w(), x0 + w()
    if bounds == 'any':
        mode = r.choice(['finite', 'finite', 'mixed', 'none'])
        if mode != 'finite':
            lb = np.where(r.rand(m) < (.5 if mode == 'mixed' else 1.1), -np.inf, lb)
            ub = np.where(r.rand(m) < (.5 if mode == 'mixed' else 1.1), np.inf, ub)
    s.lb, s.ub = lb, ub
    k = r.randint(0, 4) if k is None else k
    s.A = r.randn(k, m) * r.choice([.1, 1., 5.])
    s.b = s.A.dot(x0) + r.uniform(.05, 2., k)
    if eq and m > 1 and r.rand() < .35:
        p = r.randint(1, max(2, m - 1)); p = min(p, m - 1)
        s.Ae = r.randn(p, m); s.be = s.Ae.dot(x0)
    s.x0 = x0

def quad_data(T, s, K):
    r = T.rng; m = s.m
    for _ in range(K):
        p = r.choice([1, m, m + 1]) if m > 1 else r.choice([1, 2])
        L = r.randn(p, m); d = r.randn(m) * .5
        y = s.x0 + d
        s.quads.append((L, y, float(np.linalg.norm(L.dot(s.x0 - y)) + r.uniform(.1, 2.))))

KINDS = ['box', 'linineq', 'linquad', 'hull', 'point', 'uniform', 'normal', 'normal_trunc', 'lognormal', 'lognormal_trunc', 'unbounded']
def make(T, kind=None, m=None, bounded=False, eq=True, depth=0, kinds=None, note=True):
    """-> (domain, Spec)"""
    r = T.rng
    kinds = kinds or KINDS + ['tensor', 'tensor']
    kind = kind or kinds[r.randint(len(kinds))]
    if m is None: m = int(r.choice([1, 2, 3, 4]))
    if kind.startswith('lognormal'): m = 1
    s = Spec(m); s.kind = kind
    bd = 'finite' if bounded else 'any'
    if kind in ('box', 'uniform'):
        lin_data(T, s, False, bd if kind == 'box' else 'finite', 0)
        if kind == 'box' and r.rand() < .15: s.ub[0] = s.lb[0] = s.x0[0]
        d = (psdr.BoxDomain if kind == 'box' else psdr.UniformDomain)(s.lb.copy(), s.ub.copy())
    elif kind == 'linineq':
        lin_data(T, s, eq, bd)
        d = psdr.LinIneqDomain(A=s.A.copy(), b=s.b.copy(), lb=s.lb.copy(), ub=s.ub.copy(), A_eq=s.Ae.copy(), b_eq=s.be.copy())
    elif kind == 'linquad':
        lin_data(T, s, eq, bd); quad_data(T, s, r.randint(1, 3))
        if bounded is False and r.rand() < .5: s.quads.append((np.eye(m) * r.uniform(.3, 2), s.x0 + .1 * r.randn(m), 2.))
        d = psdr.LinQuadDomain(A=s.A.copy(), b=s.b.copy(), lb=s.lb.copy(), ub=s.ub.copy(), A_eq=s.Ae.copy(), b_eq=s.be.copy(),
                               Ls=[q[0].copy() for q in s.quads], ys=[q[1].copy() for q in s.quads], rhos=[q[2] for q in s.quads])
    elif kind == 'hull':
        k = m + 1 + r.randint(0, 4)
        P = r.randn(k, m) * 2 + r.randn(m)
        w = r.dirichlet(np.ones(k)); s.x0 = w.dot(P)
        s.hulls = [(slice(0, m), P)]
        kw = {}
        if r.rand() < .4:
            a = r.randn(1, m); s.A = a; s.b = a.dot(s.x0) + r.uniform(.05, .5, 1); kw.update(A=s.A.copy(), b=s.b.copy())
        if r.rand() < .3: s.ub = s.x0 + r.uniform(.1, 1., m); kw.update(ub=s.ub.copy())
        if r.rand() < .3: s.lb = s.x0 - r.uniform(.1, 1., m); kw.update(lb=s.lb.copy())
        if r.rand() < .2: quad_data(T, s, 1); q = s.quads[0]; kw.update(Ls=[q[0].copy()], ys=[q[1].copy()], rhos=[q[2]])
        d = psdr.ConvexHullDomain(P.copy(), **kw)
    elif kind == 'point':
        s.x0 = r.randn(m); s.points = [(slice(0, m), s.x0.copy())]; s.lb = s.x0.copy(); s.ub = s.x0.copy()
        d = psdr.PointDomain(s.x0.copy())
    elif kind in ('normal', 'normal_trunc'):
        mu = r.randn(m) * 3; B = r.randn(m, m); cov = B.dot(B.T) + .3 * np.eye(m)
        tr = None
        s.x0 = mu.copy(); s.mean, s.cov = mu, cov
        if kind == 'normal_trunc':
            from scipy.stats import chi2
            tr = float(r.choice([1e-1, 1e-2, 1e-4]))
            Li = np.linalg.inv(np.linalg.cholesky(cov))
            s.quads = [(Li, mu, float(np.sqrt(chi2.isf(tr, m))))]
        s.truncate = tr
        d = psdr.NormalDomain(mu.copy(), cov.copy(), truncate=tr)
    elif kind in ('lognormal', 'lognormal_trunc'):
        from scipy.stats import chi2
        mu, cov, off, sc = r.randn() * .5, r.uniform(.1, 1.5), r.randn(), r.uniform(.5, 2)
        tr = float(r.choice([1e-1, 1e-2])) if kind == 'lognormal_trunc' else None
        s.lb = np.array([off]); s.x0 = np.array([off + sc * np.exp(mu)])
        if tr:
            q = np.sqrt(cov * chi2.isf(tr, 1))
            s.lb, s.ub = np.array([off + sc * np.exp(mu - q)]), np.array([off + sc * np.exp(mu + q)])
        s.par = (mu, cov, off, sc, tr)
        d = psdr.LogNormalDomain(mu, cov, offset=off, scaling=sc, truncate=tr)
    elif kind == 'unbounded':
        s.x0 = r.randn(m); d = psdr.UnboundedDomain(m)
    elif kind == 'tensor':
        sub = kinds if kinds != KINDS + ['tensor', 'tensor'] else KINDS
        ks = [k for k in sub if k != 'tensor'] + (['tensor'] if depth == 0 and r.rand() < .3 else [])
        parts = [make(T, ks[r.randint(len(ks))], int(r.choice([1, 1, 2])), bounded, eq, depth + 1, kinds=kinds, note=False) for _ in range(r.randint(1, 4))]
        s = Spec(sum(p[1].m for p in parts)); s.kind = 'tensor'; s.parts = parts
        embed(s, [p[1] for p in parts])
        d = psdr.TensorProductDomain([p[0] for p in parts])
    else: raise ValueError(kind)
    s.kind = kind
    if note: T.note(kind=kind if kind != 'tensor' else 'tensor(%s)' % ','.join(p[1].kind for p in s.parts), m=s.m, x0=s.x0)
    return d, s

def near(T, s, n, spread=None):
    """points at, near and far from the constraint boundaries"""
    r = T.rng; out = []
    for _ in range(n):
        p = r.randn(s.m)
        c = r.rand()
        if c < .3: x = s.x0 + p * r.choice([.01, .1, 1.])
        elif c < .5: x = s.x0 + p * r.choice([1., 5., 50.])
        else:
            # walk to (just around) the boundary along p, keeping the equalities half of the time
            if len(s.Ae) and r.rand() < .7: p = p - np.linalg.pinv(s.Ae).dot(s.Ae.dot(p))
            t = boundary(s, s.x0, p)
            if np.isfinite(t): x = s.x0 + (t * (1 + r.choice([-.3, -1e-2, -1e-3, 1e-3, 1e-2, .3]))) * p
            else: x = s.x0 + r.choice([1., 100.]) * p
        if r.rand() < .1 and s.points: x = s.x0.copy()
        out.append(x)
    return np.array(out)

def boundary(s, x, p, tmax=1e6):
    """largest t with x + t p inside, by closed forms on the independent description (hulls by bisection)"""
    t = np.inf
    for v, lim in ((p, s.ub - x), (-p, x - s.lb)):
        for vi, li in zip(v, lim):
            if vi > 0 and np.isfinite(li): t = min(t, li / vi)
    Ap = s.A.dot(p); sl = s.b - s.A.dot(x)
    for a, l in zip(Ap, sl):
        if a > 0: t = min(t, l / a)
    if len(s.Ae) and np.max(np.abs(s.Ae.dot(p))) > 1e-6: return 0.
    for L, y, rho in s.quads:
        Lp, Ly = L.dot(p), L.dot(x - y)
        a, b, c = Lp.dot(Lp), 2 * Lp.dot(Ly), Ly.dot(Ly) - rho ** 2
        if a > 1e-14: t = min(t, (-b + np.sqrt(max(b * b - 4 * a * c, 0))) / (2 * a))
    for I, pt in s.points:
        if np.any(p[I] != 0): t = 0.
    for I, P in s.hulls:
        lim = hull_extent(P, x[I], p[I]); t = min(t, lim)
    return max(t, 0.)

def hull_extent(P, x, p):
    k, m = P.shape
    if np.all(p == 0): return np.inf
    Ae = np.block([[P.T, -p.reshape(-1, 1)], [np.ones((1, k)), np.zeros((1, 1))]])
    r = linprog(np.r_[np.zeros(k), -1.], A_eq=Ae, b_eq=np.r_[x, 1.], bounds=[(0, None)] * k + [(None, None)], method='highs')
    return float(r.x[-1]) if r.status == 0 else 0.
